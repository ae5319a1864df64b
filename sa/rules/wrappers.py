"""Operations that are made of other operations: the methods of the skip-list and radix sets (of the map they wrap), the positional
shorthands of the skip list, the operators of the skip map and the entry count of the radix map.

Each is run on an opaque collection. A call of an operation that another rule decides is not entered: what it is given is recorded and
every answer it can give is tried, with what a query reveals (is the key there? is the collection empty?) remembered for the next.
At the end the record and the answer are compared with those of the operation the method stands for."""
from ..interp import Interp, State, Unsupported, Infeasible, UNIT, NONE, TRUE, FALSE, some, tup, integer
from ..simple import Dom, start
from ..lin import Lin, V, C

OPQ = lambda n: ("opq", n)
UPDATES = {"insert": "res", "remove": "res"}
NEAREST = ("floor", "ceil", "min", "max")
BINARY = ("union", "intersection", "difference", "symmetric_difference")


def ref(h):
    return ("ref", (("h", h), ()))


class WInterp(Interp):
    MAXSTEPS = 4000

    def __init__(self, prog, mods, entry, pair):
        super().__init__(prog, Dom())
        self.mods, self.entry, self.pair = mods, entry, pair
        self.std = dict(self.std)
        for n in ("std::convert::Into::into", "std::borrow::ToOwned::to_owned", "std::clone::Clone::clone", "alloc::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec"):
            self.std.setdefault(n, lambda ip, st, args, t, f: ip.finish(st, t, OPQ("copy")))

        self.std["core::num::<impl usize>::saturating_sub"] = self.saturating_sub
        for b in ("alloc::vec::Vec::<T, A>::", "std::vec::Vec::<T, A>::", "core::slice::<impl [T]>::", "std::vec::Vec::<T>::"):
            for n in ("is_empty", "len"):
                self.std[b + n] = self.sized(n, self.std.get(b + n))

    def sized(self, name, other):
        """the size of bytes nothing is known of"""
        def h(ip, st, args, t, f):
            v = ip.plain(st, args[0])
            if v[0] != "opq":
                if other:
                    return other(ip, st, args, t, f)
                raise Unsupported("%s of %s" % (name, v[0]))
            n = V("size of " + str(v[1]))
            if name == "len":
                s = st.copy()
                s.add_ge(n)
                return ip.finish(s, t, ("int", n))
            out = []
            for e in (True, False):
                s = st.copy()
                try:
                    s.add_eq(n) if e else s.add_ge(n - 1)
                except Infeasible:
                    continue
                out += ip.finish(s, t, TRUE if e else FALSE)
            return out
        return h

    def saturating_sub(self, ip, st, args, t, f):
        a, b = args
        if a[0] != "int" or b[0] != "int":
            raise Unsupported("subtraction of " + a[0])
        out = []
        for least in (True, False):
            s = st.copy()
            try:
                s.add_ge(b[1] - a[1] - 1 if least else a[1] - b[1])
            except Infeasible:
                continue
            out += ip.finish(s, t, integer(0) if least else ("int", a[1] - b[1]))
        return out

    # -- what the operations under the method answer
    def call_path(self, st, path, f, args, t):
        if path != self.entry:
            for m in self.mods:
                h = m(self, path)
                if h:
                    return h(st, args, t)
        return super().call_path(st, path, f, args, t)

    def log(self, st, *what):
        st.mem["log"] = st.mem.get("log", ()) + (what,)

    def asked(self, st, *what):
        if what not in st.mem.get("asked", ()):
            st.mem["asked"] = st.mem.get("asked", ()) + (what,)

    def plain(self, st, v):
        if v[0] == "ref":
            v = st.strip_refs(v)
        if v[0] == "agg" and v[1] != "tuple" and len(v[3]) and v[3][0][0] == "coll":
            v = v[3][0]
        return v

    def fact(self, st, k, v):
        """states in which the fact is known"""
        if k in st.mem:
            return [st] if st.mem[k] == v else []
        s = st.copy()
        s.mem[k] = v
        try:
            if k[0] == "present" and v or k[0] == "near" and v:
                s.add_ge(V("n") - 1)
            if k[0] == "near" and k[1] in ("min", "max"):
                s.add_ge(V("n") - 1) if v else s.add_eq(V("n"))
        except Infeasible:
            return []
        return [s]


def mapops(base, generics, iters):
    """a handler for the operations of a map: `base` is its path, `iters` the prefix of its iterators"""
    own = "crate::%s::%s::" % (base, generics)

    def find(ip, path):
        name = None
        if path.startswith(own):
            name = path[len(own):]
        elif path.startswith("crate::<") and " as " in path:
            ty, _, tr = path[8:].partition(" as ")
            if ty.startswith(iters) and tr == "std::iter::Iterator>::next":
                name = "next"
            elif ty.lstrip("&").replace("'a ", "").replace("mut ", "").startswith(base) and tr == "std::iter::IntoIterator>::into_iter":
                name = "iter" if ty.startswith("&'a ") and "mut " not in ty else "iter_mut" if ty.startswith("&") else "into_iter"
            elif ty.startswith(base) and tr == "std::default::Default>::default":
                name = "new"
        if name is None or "{" in name:
            return None
        h = getattr(MapOps, "do_" + name, None)
        if h is None:
            raise Unsupported("the map's " + name)
        return lambda st, args, t: h(ip, st, args, t)
    return find


def coll(ip, st, v):
    v = ip.plain(st, v)
    if v[0] != "coll":
        raise Unsupported("operation on %s" % v[0])
    return v


def entry(ip, st):
    return tup(OPQ("rk"), UNIT if ip.pair == "unit" else OPQ("rv"))


class MapOps:
    def updated(name):
        def h(ip, st, args, t):
            c = coll(ip, st, args[0])
            ip.log(st, name, c, ip.plain(st, args[1]), *[ip.plain(st, a) for a in args[2:]])
            k = ("present", ip.plain(st, args[1]), len(st.mem["log"]) if len(st.mem["log"]) > 1 else 0)
            out = []
            for v in (True, False):
                for s in ip.fact(st, k, v):
                    out += ip.finish(s, t, some(entry(ip, s)) if v else NONE)
            return out
        return h
    do_insert, do_remove = updated("insert"), updated("remove")
    del updated

    def do_clear(ip, st, args, t):
        ip.log(st, "clear", coll(ip, st, args[0]))
        return ip.finish(st, t, UNIT)

    def do_contains_key(ip, st, args, t):
        ip.asked(st, "contains_key")
        k = ("present", ip.plain(st, args[1]), len(st.mem.get("log", ())))
        coll(ip, st, args[0])
        out = []
        for v in (True, False):
            for s in ip.fact(st, k, v):
                out += ip.finish(s, t, TRUE if v else FALSE)
        return out

    def do_get(ip, st, args, t):
        ip.asked(st, "get")
        coll(ip, st, args[0])
        key = ip.plain(st, args[1])
        k = ("present", key, len(st.mem.get("log", ())))
        out = []
        for v in (True, False):
            for s in ip.fact(st, k, v):
                s.heap["got"] = UNIT if ip.pair == "unit" else ("opq", "value of", key)
                out += ip.finish(s, t, some(ref("got")) if v else NONE)
        return out
    do_get_mut = do_get

    def do_len(ip, st, args, t):
        ip.asked(st, "len")
        coll(ip, st, args[0])
        if st.mem.get("log"):
            raise Unsupported("length after an update")
        return ip.finish(st, t, ("int", V("n")))

    def do_is_empty(ip, st, args, t):
        ip.asked(st, "is_empty")
        coll(ip, st, args[0])
        if st.mem.get("log"):
            raise Unsupported("emptiness after an update")
        out = []
        for v in (True, False):
            s = st.copy()
            try:
                s.add_eq(V("n")) if v else s.add_ge(V("n") - 1)
            except Infeasible:
                continue
            out += ip.finish(s, t, TRUE if v else FALSE)
        return out

    def near(name):
        def h(ip, st, args, t):
            ip.asked(st, name)
            coll(ip, st, args[0])
            if st.mem.get("log"):
                raise Unsupported("search after an update")
            what = (name,) + tuple(ip.plain(st, a) for a in args[1:])
            out = []
            for v in (True, False):
                for s in ip.fact(st, ("near",) + what, v):
                    s.heap[name] = ("opq", "near") + what
                    out += ip.finish(s, t, some(ref(name)) if v else NONE)
            return out
        return h
    do_floor, do_ceil, do_min, do_max = near("floor"), near("ceil"), near("min"), near("max")
    del near

    def do_get_longest_prefix(ip, st, args, t):
        ip.asked(st, "get_longest_prefix")
        coll(ip, st, args[0])
        return ip.finish(st, t, ("opq", "prefix", ip.plain(st, args[1])))

    def binary(name):
        def h(ip, st, args, t):
            v = ("coll", name, coll(ip, st, args[0]), coll(ip, st, args[1]))
            return ip.finish(st, t, v)
        return h
    do_union, do_intersection, do_difference, do_symmetric_difference = binary("union"), binary("intersection"), binary("difference"), binary("symmetric_difference")
    del binary

    def made(name):
        def h(ip, st, args, t):
            return ip.finish(st, t, ("it", name, coll(ip, st, args[0])))
        return h
    do_iter, do_iter_mut, do_into_iter = made("iter"), made("iter_mut"), made("into_iter")
    del made

    def do_new(ip, st, args, t):
        return ip.finish(st, t, ("coll", "new"))

    def do_next(ip, st, args, t):
        it = ip.plain(st, args[0])
        if it[0] != "it":
            raise Unsupported("next of %s" % it[0])
        ip.log(st, "next", it)
        out = []
        for v in (True, False):
            for s in ip.fact(st, ("more", len(st.mem["log"])), v):
                if it[1] == "into_iter":
                    r = entry(ip, s)
                else:
                    s.heap["rk"], s.heap["rv"] = OPQ("rk"), UNIT if ip.pair == "unit" else OPQ("rv")
                    r = tup(ref("rk"), ref("rv"))
                out += ip.finish(s, t, some(r) if v else NONE)
        return out


# ---------------------------------------------------------------- one method
class Run:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.problems, self.paths, self.unsupported = [], 0, []


def show(v):
    if isinstance(v, tuple):
        if v and v[0] == "opq":
            return " ".join(show(x) for x in v[1:])
        if v and v[0] == "coll":
            return {"self": "self", "new": "an empty one"}.get(v[1], v[1]) if len(v) == 2 else "%s(%s)" % (v[1], ", ".join(show(x) for x in v[2:]))
        if v and v[0] == "int":
            return str(v[1])
        if v and v[0] == "agg":
            return "(%s)" % ", ".join(show(x) for x in v[3])
        return "(%s)" % ", ".join(show(x) for x in v)
    return str(v)


def execute(run, ip, st, args, check):
    fn = ip.prog.fns.get(run.path)
    if fn is None:
        run.unsupported.append("%s is gone" % run.path)
        return run
    try:
        st.mem.setdefault("log", ())
        for o in ip.run(start(ip, fn, args, st)):
            run.paths += 1
            if o.kind == "bug":
                raise Unsupported(o.msg)
            for text in check(o):
                run.problems.append((text, list(o.state.trace)[-6:]))
    except Unsupported as e:
        run.unsupported.append(str(e))
    except Exception as e:
        run.unsupported.append("%s: %s" % (type(e).__name__, e))
    return run


def option(st, v):
    """(is it some, content without references)"""
    if v[0] != "agg" or "Option" not in v[1]:
        raise Unsupported("answer %s" % v[0])
    if v[2] == 0:
        return False, None
    x = v[3][0]
    return True, st.strip_refs(x) if x[0] == "ref" else x


def field(prog, path, what):
    adt = prog.adts.get(path)
    if not adt:
        raise Unsupported(path + " is gone")
    fs = adt["variants"][0]["fields"]
    if len(fs) != 1:
        raise Unsupported("%s has more than the %s it wraps" % (path, what))
    return fs[0]["name"]


def sets(prog, base, generics, mapbase, mapgenerics, SET):
    """every operation of a set, compared with the map's"""
    field(prog, "crate::" + base, "map")
    SELF = ("coll", "self")
    wrap = lambda c: ("agg", "crate::" + base, 0, (c,))
    mod = mapops(mapbase, mapgenerics, mapbase)
    own = "crate::%s%s::" % (base, "::" + generics if generics else "")
    ty = base + generics
    K = OPQ("k")

    def state(c=SELF):
        st = State()
        st.add_ge(V("n"))
        st.heap["me"] = wrap(c)
        st.heap["k"] = K
        return st

    def one(name, path, args, check):
        ip = WInterp(prog, [mod], path, "unit")
        return execute(Run(name, path), ip, state(), args, lambda o: ["it panics: %s" % o.msg] if o.kind == "panic" else check(o))

    def content(st):
        v = st.heap.get("me")
        if not (v and v[0] == "agg"):
            raise Unsupported("the set is gone")
        return v[3][0]

    def expect_log(o, exp, neutral=False):
        st = o.state
        log = st.mem["log"]
        c = content(st)
        if exp is not None and exp[0] == "clear" and c == ("coll", "new") and not log:
            return []
        if c != SELF:
            return ["the set's map is replaced by %s" % show(c)]
        want = (exp,) if exp else ()
        if log == want or not log and neutral:
            return []
        if len(log) > 1:
            raise Unsupported("made of several map operations: " + ", ".join(x[0] for x in log))
        if not want:
            return ["a query changes the map: %s" % show(log[0])]
        if not log:
            return ["the map's %s is not called" % exp[0]]
        return ["the map is asked to %s, not to %s" % (show(log[0]), show(exp))]

    def unclear(st):
        if len(st.mem.get("asked", ())) > 1:
            raise Unsupported("made of several queries")

    def c_update(name):
        def check(o):
            st = o.state
            p = expect_log(o, (name, SELF, K) + ((UNIT,) if name == "insert" else ()), neutral=name == "remove" and st.mem.get(("present", K, 0)) is False)
            yes, v = option(st, o.value)
            there = st.mem.get(("present", K, 0))
            if not p and there is not None:
                if yes != there:
                    p.append("it answers %s although the key was %s" % ("a key" if yes else "nothing", "there" if there else "absent"))
                elif yes and v != OPQ("rk"):
                    p.append("it answers %s, not the key that was stored" % show(v))
            return p
        return check

    def c_clear(o):
        return expect_log(o, ("clear", SELF), neutral=o.state.ge(-V("n")))

    def c_contains(o):
        p = expect_log(o, None)
        there = o.state.mem.get(("present", K, 0))
        if o.state.ge(-V("n")):
            there = False
        if o.value[0] != "bool":
            raise Unsupported("answer " + o.value[0])
        if there is None:
            unclear(o.state)
            return p + ["it answers %s without knowing whether the key is there" % o.value[1]]
        return p + ([] if o.value[1] == there else ["it answers %s although the key is %s" % (o.value[1], "there" if there else "absent")])

    def c_empty(o):
        p = expect_log(o, None)
        if o.value[0] != "bool":
            raise Unsupported("answer " + o.value[0])
        empty = True if o.state.ge(-V("n")) else False if o.state.ge(V("n") - 1) else None
        if empty is None:
            unclear(o.state)
        return p + ([] if o.value[1] == empty else ["it answers %s for a set of %s" % (o.value[1], o.state.red(V("n")))])

    def c_len(o):
        if o.value[0] != "int":
            raise Unsupported("answer " + o.value[0])
        d = o.state.red(o.value[1] - V("n"))
        return expect_log(o, None) + ([] if d.const() == 0 else ["it answers %s for n entries" % o.state.red(o.value[1])])

    def c_near(name, *a):
        def check(o):
            st = o.state
            p = expect_log(o, None)
            yes, v = option(st, o.value)
            know = st.mem.get(("near", name) + a)
            if know is None and st.ge(-V("n")):
                know = False
            if know is None:
                if yes and v == ("opq", "near", name) + a:
                    return p
                unclear(st)
                return p + ["it answers %s, not the map's %s" % (show(v) if yes else "nothing", name)]
            if yes != know or yes and v != ("opq", "near", name) + a:
                p.append("it answers %s where the map's %s answers %s" % (show(v) if yes else "nothing", name, "a key" if know else "nothing"))
            return p
        return check

    def c_coll(want, wrapped=True):
        def check(o):
            v = o.value
            if wrapped:
                if v[0] != "agg" or v[1] != "crate::" + base:
                    raise Unsupported("answer " + v[0])
                v = v[3][0]
            return [] if v == want else ["it answers %s, not %s" % (show(v), show(want))]
        return check

    def c_iter(kind):
        def check(o):
            v = o.value
            if v[0] != "agg" or not v[3]:
                raise Unsupported("answer " + v[0])
            want = ("it", kind, SELF)
            return [] if v[3][0] == want else ["the iterator goes over %s" % show(v[3][0])]
        return check

    L, R = ("coll", "left"), ("coll", "right")
    for n in ("insert", "remove"):
        yield one(n, own + n, [ref("me"), K if n == "insert" and SET == "skip" else ref("k")], c_update(n))
    yield one("clear", own + "clear", [ref("me")], c_clear)
    yield one("contains", own + "contains", [ref("me"), ref("k")], c_contains)
    yield one("len", own + "len", [ref("me")], c_len)
    yield one("is_empty", own + "is_empty", [ref("me")], c_empty)
    for n in ("min", "max"):
        yield one(n, own + n, [ref("me")], c_near(n))
    if SET == "skip":
        for n in ("floor", "ceil"):
            yield one(n, own + n, [ref("me"), ref("k")], c_near(n, K))
        for n in BINARY:
            yield one(n, own + n, [wrap(L), wrap(R)], c_coll(("coll", n, L, R)))
        for tr, n, m in (("Add", "add", "union"), ("Sub", "sub", "difference")):
            yield one(n, "crate::<%s as std::ops::%s>::%s" % (ty, tr, n), [wrap(L), wrap(R)], c_coll(("coll", m, L, R)))
    else:
        yield one("get_longest_prefix", own + "get_longest_prefix", [ref("me"), ref("k")], lambda o: expect_log(o, None) + ([] if o.value == ("opq", "prefix", K) else ["it answers %s" % show(o.value)]))
    yield one("new", own + "new", [], c_coll(("coll", "new")))
    yield one("default", "crate::<%s as std::default::Default>::default" % ty, [], c_coll(("coll", "new")))
    yield one("iter", own + "iter", [ref("me")], c_iter("iter"))
    yield one("&into_iter", "crate::<&'a %s as std::iter::IntoIterator>::into_iter" % ty, [ref("me")], c_iter("iter"))
    yield one("into_iter", "crate::<%s as std::iter::IntoIterator>::into_iter" % ty, [wrap(SELF)], c_iter("into_iter"))
    for kind, suffix in (("iter", "Iter"), ("into_iter", "IntoIter")):
        ps = [p for p in prog.fns if p.startswith("crate::<%s%s" % (base, suffix)) and p.endswith(" as std::iter::Iterator>::next")]
        if len(ps) != 1:
            r = Run("next", base + suffix)
            r.unsupported.append("no single next")
            yield r
            continue
        ip = WInterp(prog, [mod], ps[0], "unit")
        st = state()
        it = ("it", kind, SELF)
        field(prog, "crate::" + base + suffix, "iterator")
        st.heap["cursor"] = ("agg", "crate::" + base + suffix, 0, (it,))

        def check(o):
            if o.kind == "panic":
                return ["it panics: %s" % o.msg]
            s = o.state
            if s.heap.get("cursor") != ("agg", "crate::" + base + suffix, 0, (it,)):
                return ["the map's iterator is replaced"]
            if s.mem["log"] != (("next", it),):
                if len(s.mem["log"]) > 1:
                    return ["more than one entry is taken from the map's iterator"] if o.value[0] == "agg" else []
                return ["the map's iterator is not advanced"]
            yes, v = option(s, o.value)
            more = s.mem[("more", 1)]
            if yes != more:
                return ["it answers %s although the map's iterator has %s" % ("a key" if yes else "nothing", "more" if more else "ended")]
            return [] if not yes or v == OPQ("rk") else ["it answers %s, not the key" % show(v)]
        yield execute(Run("next", ps[0]), ip, st, [ref("cursor")], check)


# ---------------------------------------------------------------- the operators of the skip map
def skipmap(prog):
    base, g = "skiplist::map::SkipMap", "<T, U>"
    mod = mapops(base, "<T, U>", base)
    L, R, SELF, K = ("coll", "left"), ("coll", "right"), ("coll", "self"), OPQ("k")

    def skipping(entry):
        return lambda ip, path: mod(ip, path)

    def one(name, path, args, check):
        st = State()
        st.add_ge(V("n"))
        st.heap["me"], st.heap["k"] = SELF, K
        return execute(Run(name, path), WInterp(prog, [skipping(path)], path, "pair"), st, args, check)

    def c_coll(want):
        return lambda o: [] if o.kind == "return" and o.value == want else ["it answers %s, not %s" % (show(o.value) if o.value else "a panic", show(want))]

    def c_index(o):
        there = o.state.mem.get(("present", K, 0))
        if o.state.mem["log"]:
            return ["indexing changes the map"]
        if o.kind == "panic":
            return [] if there is False else ["it panics although the key is there"]
        if there is not True:
            return ["it answers although the key is absent"]
        v = o.state.strip_refs(o.value)
        return [] if v == ("opq", "value of", K) else ["it answers %s" % show(v)]

    def c_contains(o):
        there = o.state.mem.get(("present", K, 0))
        if o.kind != "return" or o.value[0] != "bool":
            return ["it panics"]
        if there is None:
            raise Unsupported("not decided by a lookup")
        return [] if o.value[1] == there else ["it answers %s although the key is %s" % (o.value[1], "there" if there else "absent")]

    def c_empty(o):
        if o.kind != "return" or o.value[0] != "bool":
            raise Unsupported("answer")
        return [] if o.value[1] == o.state.ge(-V("n")) and (o.value[1] or o.state.ge(V("n") - 1)) else ["it answers %s" % o.value[1]]
    for tr, n, m in (("Add", "add", "union"), ("Sub", "sub", "difference")):
        yield one(n, "crate::<%s%s as std::ops::%s>::%s" % (base, g, tr, n), [L, R], c_coll(("coll", m, L, R)))
    yield one("default", "crate::<%s%s as std::default::Default>::default" % (base, g), [], c_coll(("coll", "new")))
    for tr, n in (("Index", "index"), ("IndexMut", "index_mut")):
        ps = [p for p in prog.fns if p.startswith("crate::<%s%s as std::ops::%s<" % (base, g, tr)) and "{" not in p]
        for p in ps:
            yield one(n, p, [ref("me"), ref("k")], c_index)
    for p, kind in (("&'a ", "iter"), ("&'a mut ", "iter_mut")):
        yield one(kind + " by reference", "crate::<%s%s%s as std::iter::IntoIterator>::into_iter" % (p, base, g), [ref("me")], c_coll(("it", kind, SELF)))


# ---------------------------------------------------------------- the positional shorthands of the skip list
def skiplist(prog):
    base = "skiplist::list::SkipList"
    own = "crate::%s::<T>::" % base
    adt = prog.adts.get("crate::" + base)
    if not adt:
        raise Unsupported("the skip list is gone")
    names = [f["name"] for f in adt["variants"][0]["fields"]]
    if "len" not in names:
        raise Unsupported("the skip list has no field len")
    X, I = OPQ("x"), V("i")

    def mod(ip, path):
        name = path[len(own):] if path.startswith(own) else None
        if path.startswith("crate::<%s" % base) and path.endswith("Default>::default"):
            name = "new"

        def insert(st, args, t):
            ip.log(st, "insert", st.red(args[1][1]), ip.plain(st, args[2]))
            return ip.finish(st, t, UNIT)

        def remove(st, args, t):
            ip.log(st, "remove", st.red(args[1][1]))
            return ip.finish(st, t, OPQ("element"))

        def get(st, args, t):
            i = st.red(args[1][1])
            out = []
            for v in (True, False):
                s = st.copy()
                try:
                    s.add_ge(V("n") - 1 - i if v else i - V("n"))
                except Infeasible:
                    continue
                s.heap["el"] = ("opq", "element at", i)
                s.mem["in range"] = v
                out += ip.finish(s, t, some(ref("el")) if v else NONE)
            return out

        def made(kind):
            return lambda st, args, t: ip.finish(st, t, ("it", kind))
        return {"insert": insert, "remove": remove, "get": get, "get_mut": get, "iter": made("iter"), "iter_mut": made("iter_mut"),
                "new": lambda st, args, t: ip.finish(st, t, ("coll", "new"))}.get(name)

    def one(name, path, args, check, least=0):
        st = State()
        st.add_ge(V("n") - least)
        st.add_ge(V("i"))
        st.heap["me"] = ("agg", "crate::" + base, 0, tuple(("int", V("n")) if n == "len" else ("opaque", n) for n in names))
        return execute(Run(name, path), WInterp(prog, [mod], path, "list"), st, args, check)

    def c_log(value, *want):
        def check(o):
            if o.kind == "panic":
                return ["it panics: " + o.msg]
            log = o.state.mem["log"]
            if len(log) > 1:
                raise Unsupported("made of several operations")
            same = log and log[0][0] == want[0] and o.state.red(log[0][1] - want[1]).const() == 0 and log[0][2:] == want[2:]
            if not same:
                return ["it is %s instead of %s" % (show(log[0]) if log else "nothing", show(want))]
            return [] if value is None or o.value == value else ["it answers %s" % show(o.value)]
        return check

    def c_index(o):
        yes = o.state.mem.get("in range")
        if o.kind == "panic":
            return [] if yes is False else ["it panics although the index is in range"]
        if yes is not True:
            return ["it answers although the index is out of range"]
        v = o.state.strip_refs(o.value)
        return [] if v[:2] == ("opq", "element at") and o.state.red(v[2] - I).const() == 0 else ["it answers the %s" % show(v)]

    n = V("n")
    yield one("push_front", own + "push_front", [ref("me"), X], c_log(None, "insert", C(0), X))
    yield one("push_back", own + "push_back", [ref("me"), X], c_log(None, "insert", n, X))
    yield one("pop_front", own + "pop_front", [ref("me")], c_log(OPQ("element"), "remove", C(0)), 1)
    yield one("pop_back", own + "pop_back", [ref("me")], c_log(OPQ("element"), "remove", n - 1), 1)
    for tr, m in (("Index", "index"), ("IndexMut", "index_mut")):
        yield one(m, "crate::<%s<T> as std::ops::%s<usize>>::%s" % (base, tr, m), [ref("me"), ("int", I)], c_index)
    same = lambda want: lambda o: [] if o.kind == "return" and o.value == want else ["it answers %s" % (show(o.value) if o.value else "a panic")]
    yield one("default", "crate::<%s<T> as std::default::Default>::default" % base, [], same(("coll", "new")))
    for p, kind in (("&'a ", "iter"), ("&'a mut ", "iter_mut")):
        yield one(kind + " by reference", "crate::<%s%s<T> as std::iter::IntoIterator>::into_iter" % (p, base), [ref("me")], same(("it", kind)))


# ---------------------------------------------------------------- the entry count of the radix map
def radixlen(prog):
    base = "radix::map::RadixMap"
    own = "crate::%s::<T>::" % base
    adt = prog.adts.get("crate::" + base)
    if not adt:
        raise Unsupported("the radix map is gone")
    names = [f["name"] for f in adt["variants"][0]["fields"]]
    if "len" not in names:
        raise Unsupported("the radix map has no field len")
    LEN = names.index("len")

    def mod(ip, path):
        if not path.startswith(("crate::radix::tree::", "crate::radix::node::", "crate::<radix::node::", "crate::<radix::tree::")) or "{" in path:
            return None
        name = path.rsplit("::", 1)[1]

        def update(st, args, t):
            ip.log(st, name)
            out = []
            for v in (True, False):
                s = st.copy()
                s.mem["hit"] = v
                try:
                    if v:
                        s.add_ge(V("n") - 1)
                except Infeasible:
                    continue
                out += ip.finish(s, t, NONE if not v else some(OPQ("value") if name == "insert" else tup(OPQ("rk"), OPQ("rv"))))
            return out
        if path.startswith("crate::radix::tree::") and name in ("insert", "remove"):
            return update
        return lambda st, args, t: ip.finish(st, t, ("opaque", name))

    def one(name, path, args, check):
        st = State()
        st.add_ge(V("n"))
        st.heap["me"] = ("agg", "crate::" + base, 0, tuple(("int", V("n")) if n == "len" else ("opaque", n) for n in names))
        st.heap["k"] = OPQ("k")
        return execute(Run(name, path), WInterp(prog, [mod], path, "pair"), st, args, check)

    def length(o, want):
        v = o.state.heap["me"]
        l = v[3][LEN] if v[0] == "agg" else None
        if l is None or l[0] != "int":
            raise Unsupported("the count is lost")
        d = o.state.red(l[1] - want)
        return [] if d.const() == 0 else ["the count becomes %s, it should be %s" % (o.state.red(l[1]), o.state.red(want))]

    def c_update(name, delta):
        def check(o):
            if o.kind == "panic":
                return []
            if o.state.mem["log"] != ((name,),):
                raise Unsupported("not one update of the tree")
            return length(o, V("n") + delta(o.state.mem["hit"]))
        return check

    def c_len(o):
        if o.kind != "return" or o.value[0] != "int":
            raise Unsupported("answer")
        return [] if o.state.red(o.value[1] - V("n")).const() == 0 else ["it answers %s for n entries" % o.state.red(o.value[1])]

    def c_empty(o):
        if o.kind != "return" or o.value[0] != "bool":
            raise Unsupported("answer")
        return [] if (o.state.ge(-V("n")) if o.value[1] else o.state.ge(V("n") - 1)) else ["it answers %s for %s entries" % (o.value[1], o.state.red(V("n")))]

    def c_new(o):
        v = o.value
        if o.kind != "return" or v[0] != "agg" or v[3][LEN][0] != "int":
            raise Unsupported("answer")
        return [] if o.state.red(v[3][LEN][1]).const() == 0 else ["a new map counts %s entries" % o.state.red(v[3][LEN][1])]
    yield one("insert", own + "insert", [ref("me"), ref("k"), OPQ("v")], c_update("insert", lambda hit: 0 if hit else 1))
    yield one("remove", own + "remove", [ref("me"), ref("k")], c_update("remove", lambda hit: -1 if hit else 0))
    yield one("clear", own + "clear", [ref("me")], lambda o: length(o, C(0)) if o.kind == "return" else [])
    yield one("len", own + "len", [ref("me")], c_len)
    yield one("is_empty", own + "is_empty", [ref("me")], c_empty)
    yield one("new", own + "new", [], c_new)
    yield one("default", "crate::<%s<T> as std::default::Default>::default" % base, [], c_new)


# ---------------------------------------------------------------- reporting
def report(ctx, what, floor, gens):
    n = 0
    for g in gens:
        try:
            rs = list(g(ctx.prog))
        except Unsupported as e:
            ctx.undecided(what, what, str(e))
            continue
        for r in rs:
            n += 1
            key = "%s:%s:%s" % (what, r.name, r.path.replace("crate::", "")[-60:])
            ctx.count("abstract paths", r.paths)
            if r.unsupported:
                ctx.undecided(key, r.path, "; ".join(r.unsupported))
            elif not r.paths:
                ctx.undecided(key, r.path, "no path reaches the end")
            seen = set()
            for text, trace in r.problems if not r.unsupported else ():
                if text not in seen:
                    seen.add(text)
                    f = ctx.prog.fns.get(r.path)
                    ctx.bad("%s:%s" % (key, text[:60]), "%s (%s)" % (r.path, f.span if f else ""), "%s\non the path: %s" % (text, "; ".join(trace) or "(every path)"))
            if not seen and not r.unsupported and r.paths:
                ctx.ok(key, r.path, "%d abstract paths" % r.paths)
    ctx.floor(what, n, floor)


def skipset_ops(p):
    return sets(p, "skiplist::set::SkipSet", "<T>", "skiplist::map::SkipMap", "<T, U>", "skip")


def radixset_ops(p):
    return sets(p, "radix::set::RadixSet", "", "radix::map::RadixMap", "<T>", "radix")


def X02(ctx):
    ctx.rule("delegation", "a set operation of the skip-list and radix sets is run on an opaque map; the map operations it calls, with their arguments, and its answer under every answer of theirs are compared with the operation it stands for")
    report(ctx, "set", 35, [skipset_ops, radixset_ops])


def S03(ctx):
    report(ctx, "operator", 7, [skipmap])


def S04(ctx):
    report(ctx, "shorthand", 7, [skiplist])


def X01(ctx):
    ctx.rule("entry count", "the radix map's count changes by one exactly when its tree reports a new or a removed entry")
    report(ctx, "count", 6, [radixlen])


if __name__ == "__main__":
    import sys
    from .. import mir
    prog = mir.load(sys.argv[1])
    for g in (skipset_ops, radixset_ops, skipmap, skiplist, radixlen):
        for r in g(prog):
            print(g.__name__, r.name, r.paths, r.unsupported or "", [p[0] for p in r.problems])
