"""Arrays of symbolic length for the abstract interpreter.

An array is ("arr", segments): a segment is ("sum", value, end) - every element from the previous segment's end up to
`end` is described by `value` - or ("cell", h, end): the one element before `end` lives at heap address h. An element is
isolated into a cell before it is read or written, splitting the state on where the index lies. At loop heads cells go
back into summaries, counters and bounds get names of their own, and the differences between them are kept as facts."""
from .interp import Unsupported, Infeasible, Bug, Outcome, UNIT, NONE, MOVED, TRUE, FALSE, OPTION, some, tup, integer
from .lin import V, C, Lin, samples, holds
from .colls import CDom, CInterp
from .simple import SYM


def matrix(facts):
    """difference bounds: m[a][b] is the best known c with a - b >= c; "" is zero. Facts of another form are returned too"""
    m, rest = {}, []

    def put(a, b, c):
        r = m.setdefault(a, {})
        m.setdefault(b, {})
        if c > r.get(b, -1 << 60):
            r[b] = c
    for l in facts:
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            (x, k), = l.t
            if k == 1:
                put(x, "", -l.c)
            else:
                put("", x, -l.c)
        elif len(l.t) == 2 and sorted(k for _, k in l.t) == [-1, 1]:
            (x, k), (y, _) = l.t
            if k == 1:
                put(x, y, -l.c)
            else:
                put(y, x, -l.c)
        else:
            rest.append(l)
    for x in list(m):
        if x and x[0] in "nhbi":
            put(x, "", 0)
    for k in sorted(m):
        rk = m[k]
        for i in m:
            ri = m[i]
            d = ri.get(k)
            if d is None or i == k:
                continue
            for j, e in rk.items():
                if j != i and d + e > ri.get(j, -1 << 60):
                    ri[j] = d + e
    return m, rest


def fact(a, b, c):
    return (V(a) if a else C(0)) - (V(b) if b else C(0)) - c


def closure(facts):
    m, rest = matrix(facts)
    out = list(rest)
    for a in m:
        for b, c in m[a].items():
            if not (b == "" and c <= 0 and a[0] in "nhbi") and c >= -2 or c < -2 and m[b].get(a) == -c:
                out.append(fact(a, b, c))
    return out


def reduced(facts):
    """the same facts without those that follow from others"""
    m, rest = matrix(facts)
    rep, reps = {}, []
    out = []
    for x in sorted(m):
        for r in reps:
            c = m[x].get(r)
            if c is not None and m[r].get(x) == -c:
                rep[x] = r
                out += [fact(x, r, c), fact(r, x, -c)]
                break
        else:
            reps.append(x)
    for a in reps:
        for b in reps:
            c = m[a].get(b)
            if a == b or c is None:
                continue
            if b == "" and c <= 0 and a[0] in "nhbi":
                continue
            if any(k != a and k != b and m[a].get(k) is not None and m[k].get(b) is not None and m[a][k] + m[k][b] >= c for k in reps):
                continue
            out.append(fact(a, b, c))
    return tuple(dict.fromkeys(rest + out))


def arr(*segs):
    """segs: (value, end Lin)"""
    return ("arr", tuple(("sum", v, e) for v, e in segs))


class ADom(CDom):
    fixed = ()
    params = ()             # symbols that never change within an operation

    def heap_refs(self, v, out):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "cell" and isinstance(v[1], str):
            out.append(("h", v[1]))
            return
        CDom.heap_refs(self, v, out)

    def instantiate(self, st, v):
        """a single element out of a summary"""
        return v

    def summary(self, st, v):
        """the description of an element that goes back into a summary"""
        return v

    def merge(self, st, a, b):
        """one description for both, or None"""
        return a if a == b else None

    def borrowed(self, st):
        """addresses that live references point to"""
        out = set()

        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "ref" and isinstance(v[1], tuple) and v[1][0][0] == "h":
                    out.add(v[1][0][1])
                for x in v:
                    walk(x)
        for f in st.frames:
            for l, v in f.locals.items():
                walk(v)
            if f.dest:
                walk(("ref", f.dest))
        for h, v in st.heap.items():
            walk(v)
        return out

    def tidy(self, st, h, held=()):
        """put the cells of an array back into summaries and join equal neighbours"""
        v = st.heap[h]
        segs, lo = [], C(0)
        for kind, x, hi in v[1]:
            w = st.red(hi - lo)
            if w.const() == 0 or kind == "sum" and w.const() is None and st.ge(-w):
                continue
            if kind == "cell":
                if x in held:
                    segs.append((kind, x, hi))
                    lo = hi
                    continue
                x = self.summary(st, st.heap[x])
            lo = hi
            if segs and segs[-1][0] == "sum":
                m = self.merge(st, segs[-1][1], x)
                if m is not None:
                    segs[-1] = ("sum", m, hi)
                    continue
            segs.append(("sum", x, hi))
        st.heap[h] = ("arr", tuple(segs))
        return st.heap[h]

    def fold(self, st):
        self.at_head(st)
        st = CDom.fold(self, st)
        held = self.borrowed(st)
        for h in sorted(st.heap):
            if h in st.heap and st.heap[h][0] == "arr":
                self.tidy(st, h, held)
        self.settle(st)
        self.generalise(st)
        return CDom.fold(self, st)

    def settle(self, st):
        """hook: after arrays are tidy"""

    def generalise(self, st):
        """name every counter and every bound; keep what is known of their differences"""
        pos, order = {}, []

        def fixed(l):
            return all(not SYM.match(n) for n in l.syms())

        def name(l, const=False):
            l = st.red(l)
            if l.const() is None and fixed(l) and self.keepname(l) or const and l.const() is not None:
                return l
            s = V(st.fresh("n" if st.ge(l) else "z"))
            pos[s] = l
            order.append(s)
            return s

        def walk(v, const=False):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "int" and len(v) == 2 and isinstance(v[1], Lin):
                return ("int", name(v[1], const))
            if v[0] in ("arr", "frz"):
                out, n = [], len(v[1])
                for k, x, e in v[1]:
                    out.append((k, walk(x, True) if k == "sum" else x, name(e)))
                return (v[0], tuple(out))
            if v[0] in ("ref", "lin"):
                return v
            return tuple(walk(x, const) if isinstance(x, tuple) else x for x in v)
        for f in st.frames:
            for l in sorted(f.locals):
                f.locals[l] = walk(f.locals[l])
        for h in sorted(st.heap):
            st.heap[h] = walk(st.heap[h])
        for k in sorted([k for k in st.mem if isinstance(k, str) and k.startswith("root:")]):
            st.mem[k] = walk(st.mem[k])
        if not pos:
            return
        pts = samples(st.all_lin(), 12)

        nums = []
        for k, e in st.eqs.items():
            nums += [V(k) - e, e - V(k)]
        m, rest = matrix(nums + st.all_lin())

        def ge(l):
            l = st.red(l)
            if not l.t:
                return l.c >= 0
            if not holds(l, pts):
                return False
            if len(l.t) == 1 and abs(l.t[0][1]) == 1:
                a, b = (l.t[0][0], "") if l.t[0][1] == 1 else ("", l.t[0][0])
            elif len(l.t) == 2 and sorted(k for _, k in l.t) == [-1, 1]:
                a, b = (l.t[0][0], l.t[1][0]) if l.t[0][1] == 1 else (l.t[1][0], l.t[0][0])
            else:
                return st.ge(l)
            if m.get(a, {}).get(b, -1 << 60) >= -l.c or a and a[0] in "nhbi" and b == "" and l.c >= 0:
                return True
            return bool(rest) and st.ge(l)
        pars = [V(p) for p in self.parameters(st)]
        for p in pars:
            pos[p] = st.red(p)
        new, reps = [], []
        for p in pars:
            if pos[p].const() is None:
                new += [p - c for c in (3, 2, 1) if ge(p - c)][:1]
        for a in order:
            la = pos[a]
            if la.const() is not None:
                new += [a - la.const(), -(a - la.const())]
            else:
                for c in (2, 1, 0):
                    if ge(la - c):
                        new.append(a - c)
                        if ge(C(c) - la):
                            new.append(C(c) - a)
                        break
            same = False
            for b in reps + pars:
                d = st.red(la - pos[b])
                if d.const() is not None or fixed(d):
                    new += [a - b - d, -(a - b - d)]
                    if d.const() is not None and abs(d.const()) <= 2:
                        same = True
                        break
            if same:
                continue
            for b in reps + pars:
                d = st.red(la - pos[b])
                if d.const() is not None or fixed(d):
                    continue
                for x, s in ((a - b, d), (b - a, -d)):
                    for c in (1, 0, -1):
                        if ge(s - c):
                            new.append(x - c)
                            break
            if la.const() is None:
                for e in self.combos(st, pars):
                    d = st.red(la - e)
                    if fixed(d):
                        continue
                    if ge(d):
                        new.append(a - e)
                    if ge(-d):
                        new.append(e - a)
            reps.append(a)
        keep = [l for l in st.lin if fixed(l)]
        st.eqs = {k: e for k, e in st.eqs.items() if not SYM.match(k) and fixed(e)}
        st.lin = reduced([l for l in (st.red(l) for l in new + keep) if l.t])

    def facts(self, st, names):
        """everything known of the differences between named quantities"""
        nums = []
        for k, e in st.eqs.items():
            nums += [V(k) - e, e - V(k)]
        return closure(nums + list(st.lin))

    def canon(self, st):
        key, nums, inv = CDom.canon(self, st)
        names = {x: n for n, x in inv.items()}
        out = set()
        for l in self.facts(st, names):
            if all(v in names or not SYM.match(v) for v in l.syms()):
                out.add(("lin", tuple(sorted((names.get(v, v), c) for v, c in l.t)), l.c))
        return key, frozenset(out), inv

    def weaken(self, st, stored, inv):
        kept, all_ = [], True
        mine = {}
        for l in self.facts(st, inv):
            if l.c < mine.get(l.t, 1 << 60):
                mine[l.t] = l.c
        for f in stored:
            t = tuple(sorted((inv.get(v, v), c) for v, c in f[1]))
            l = Lin(t, f[2])
            have = mine.get(t)
            if have is not None and have <= f[2] or len(t) > 2 and st.ge(l):
                kept.append((f, l))
                continue
            all_ = False
            if have is not None and have <= 2:
                kept.append(((f[0], f[1], have), Lin(t, have)))
        if all_:
            return None
        ls = [l for _, l in kept]
        st.eqs = {k: e for k, e in st.eqs.items() if not SYM.match(k)}
        st.lin = reduced([l for l in (st.red(l) for l in ls) if l.t])
        return frozenset(f for f, _ in kept)

    def keepname(self, l):
        """a quantity that only depends on parameters keeps its form"""
        return True

    def parameters(self, st):
        return [p for p in self.params]

    def combos(self, st, pars):
        return ()


class AInterp(CInterp):
    # ------------------------------------------------------------ places
    def iplaces(self, x):
        r = x.get("_ipl")
        if r is None:
            r = x["_ipl"] = [p for p in self.places(x) if any(e["k"] == "index" for e in p["p"])]
        return r

    def guarded(self, fn, st, arg):
        for p in self.iplaces(arg):
            r = self.expose(st, p)
            if r is not None:
                out = []
                for s in r:
                    try:
                        out.extend(self.guarded(fn, s, arg))
                    except Infeasible:
                        pass
                return out
        try:
            return fn(st, arg)
        except Exposed as e:
            out = []
            for s in e.states:
                try:
                    out.extend(self.guarded(fn, s, arg))
                except Infeasible:
                    pass
            return out

    def expose(self, st, place):
        """None if every element on the way is a cell, else the states in which it is"""
        root, proj = ("l", st.top.fid, place["l"]), ()
        for e in place["p"]:
            k = e["k"]
            if k == "deref":
                root, proj = st.deref(st.read((root, proj)))
            elif k == "field":
                proj = proj + (e["i"],)
            elif k == "index":
                i = st.top.locals.get(e["l"])
                if i is None or i[0] != "int":
                    raise Unsupported("index is %s" % (i and i[0]))
                c = self.cell(st, (root, proj), i[1])
                if c is None:
                    return self.isolate(st, (root, proj), i[1])
                root, proj = ("h", c), ()
        return None

    def addr(self, st, place):
        if not any(e["k"] == "index" for e in place["p"]):
            return CInterp.addr(self, st, place)
        root, proj = ("l", st.top.fid, place["l"]), ()
        for e in place["p"]:
            k = e["k"]
            if k == "deref":
                root, proj = st.deref(st.read((root, proj)))
            elif k == "field":
                proj = proj + (e["i"],)
            elif k == "index":
                c = self.cell(st, (root, proj), st.top.locals[e["l"]][1])
                if c is None:
                    raise Unsupported("element not isolated")
                root, proj = ("h", c), ()
            elif k != "downcast":
                raise Unsupported("projection " + k)
        return (root, proj)

    def array(self, st, addr):
        v = st.read(addr)
        if v[0] in ("box", "boxraw"):
            v = st.heap[v[1]]
        if v[0] != "arr":
            raise Unsupported("index into " + v[0])
        return v

    def arrayat(self, st, r):
        """address and value of the array behind a value"""
        n = 0
        while True:
            if r[0] == "ref":
                a = r[1]
                v = st.read(a)
            elif r[0] in ("box", "boxraw"):
                a = (("h", r[1]), ())
                v = st.read(a)
            else:
                raise Unsupported("array is " + r[0])
            if v[0] == "arr":
                return a, v
            r = v
            n += 1
            if n > 8:
                raise Unsupported("array behind too many references")

    def cell(self, st, addr, i):
        v = self.array(st, addr)
        lo = C(0)
        for kind, x, hi in v[1]:
            if kind == "cell" and st.red(i - lo).const() == 0:
                return x
            lo = hi
        return None

    def isolate(self, st, addr, i):
        v = st.read(addr)
        if v[0] in ("box", "boxraw"):
            addr = (("h", v[1]), ())
            v = st.read(addr)
        if v[0] != "arr":
            raise Unsupported("index into " + v[0])
        out = []
        lo = C(0)
        for k, (kind, x, hi) in enumerate(v[1]):
            s = st.copy()
            try:
                if kind == "cell":
                    s.add_eq(i - lo)
                else:
                    s.add_ge(i - lo)
                    s.add_ge(hi - i - 1)
                    h = s.fresh("e")
                    s.heap[h] = self.dom.instantiate(s, x)
                    segs = list(v[1][:k])
                    if s.red(i - lo).const() != 0:
                        segs.append(("sum", x, i))
                    segs.append(("cell", h, i + 1))
                    if s.red(hi - i - 1).const() != 0:
                        segs.append(("sum", x, hi))
                    s.write(addr, ("arr", tuple(segs) + v[1][k + 1:]))
                out.append(s)
            except Infeasible:
                pass
            lo = hi
        return out

    def element(self, st, r, i):
        """a reference to element i of the array behind r, or the states in which it is isolated"""
        a, v = self.arrayat(st, r)
        c = self.cell(st, a, i)
        if c is None:
            raise Exposed(self.isolate(st, a, i))
        return ("ref", (("h", c), ()))

    # ------------------------------------------------------------ values
    def rvalue(self, st, r):
        k = r["k"]
        if k == "un" and r["op"] == "PtrMetadata":
            v = self.operand(st, r["o"])
            a, x = self.arrayat(st, v)
            return [(st, ("int", self.length(x)))]
        if k == "cast":
            o = r["o"]
            if r["ck"].startswith("IntToInt"):
                v = self.operand(st, o)
                if v[0] == "bool":
                    return [(st, integer(1 if v[1] else 0))]
                if v[0] == "int":
                    return [(st, v)]
        return CInterp.rvalue(self, st, r)

    @staticmethod
    def length(v):
        return v[1][-1][2] if v[1] else C(0)

    def binop(self, st, r, l, rr):
        if l[0] == "int" and rr[0] == "int":
            base = r["op"].replace("WithOverflow", "").replace("Unchecked", "")
            n = rr[1].const()
            if base == "Shr" and n is not None:
                return [(s, ("int", q)) for s, q in self.divide(st, l[1], 1 << n)]
            if base == "Div" and n:
                return [(s, ("int", q)) for s, q in self.divide(st, l[1], n)]
            if base == "Mul" and l[1].const() is None and n is None:
                v = ("int", product(st.red(l[1]), st.red(rr[1])))
                return [(st, tup(v, FALSE) if r["op"].endswith("WithOverflow") else v)]
        return CInterp.binop(self, st, r, l, rr)

    def divide(self, st, x, n):
        x = st.red(x)
        c = x.const()
        if c is not None:
            return [(st, C(c // n))]
        if all(not SYM.match(y) for y in x.syms()):
            q = V("h[(%s)/%d]" % (x, n))
        else:
            q = V(st.fresh("n" if st.ge(x) else "z"))
        st.add_ge(x - q.scale(n))
        st.add_ge(q.scale(n) + (n - 1) - x)
        return [(st, q)]


class Exposed(Exception):
    def __init__(self, states):
        self.states = states


def product(a, b):
    r = C(a.c * b.c)
    for n, c in a.t:
        r = r + V(n).scale(c * b.c)
    for n, c in b.t:
        r = r + V(n).scale(c * a.c)
    for n, c in a.t:
        for m, d in b.t:
            x, y = sorted((n, m))
            r = r + V("n[%s*%s]" % (x, y)).scale(c * d)
    return r


# ---------------------------------------------------------------- library calls on arrays, ranges and vectors
OVER = {}


def over(*names):
    def d(f):
        for n in names:
            OVER[n] = f
        return f
    return d


@over("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def vnew(ip, st, args, t, f):
    h = st.fresh("v")
    st.heap[h] = ("arr", ())
    return ip.finish(st, t, ("box", h))


@over("std::vec::Vec::<T, A>::push")
def vpush(ip, st, args, t, f):
    a, v = ip.arrayat(st, args[0])
    h = st.fresh("e")
    st.heap[h] = args[1]
    st.write(a, ("arr", v[1] + (("cell", h, ip.length(v) + 1),)))
    return ip.finish(st, t, UNIT)


@over("std::vec::Vec::<T, A>::into_boxed_slice")
def boxed(ip, st, args, t, f):
    return ip.finish(st, t, args[0])


@over("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len")
def length(ip, st, args, t, f):
    a, v = ip.arrayat(st, args[0])
    return ip.finish(st, t, ("int", ip.length(v)))


@over("core::slice::<impl [T]>::swap")
def swap(ip, st, args, t, f):
    n = ip.length(ip.arrayat(st, args[0])[1])
    for i in args[1:]:
        if not st.ge(n - i[1] - 1):
            s = st.copy()
            try:
                s.add_ge(i[1] - n)
                return ip.panic(s, "index out of bounds")
            except Infeasible:
                pass
    x, y = (ip.element(st, args[0], i[1]) for i in args[1:])
    a, b = st.read(x[1]), st.read(y[1])
    st.write(x[1], b)
    st.write(y[1], a)
    return ip.finish(st, t, UNIT)


@over("std::iter::IntoIterator::into_iter")
def into_iter(ip, st, args, t, f):
    v = args[0]
    if v[0] == "agg" and v[1].startswith("std::ops::Range"):
        return ip.finish(st, t, v)
    from .colls import to_iter
    return to_iter(ip, st, args, t, f)


@over("std::iter::Iterator::next", "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
      "std::iter::DoubleEndedIterator::next_back", "std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def range_next(ip, st, args, t, f):
    a = st.deref(args[0])
    v = st.read(a)
    while v[0] == "ref":
        a = v[1]
        v = st.read(a)
    if v[0] == "rev":
        a2 = v[1]
        inner = v[1]
        return rstep(ip, st, a, inner, t, not f["path"].endswith("next_back"), True)
    if v[0] == "agg" and v[1].startswith("std::ops::Range") and len(v[3]) == 2:
        return rstep(ip, st, a, v, t, f["path"].endswith("next_back"), False)
    from .colls import nxt
    return nxt(ip, st, args, t, f)


def rstep(ip, st, a, v, t, back, rev):
    out = []
    for s, more in ip.decide_rel(st, "Lt", v[3][0], v[3][1]):
        if not more:
            out += ip.finish(s, t, NONE)
            continue
        lo, hi = v[3][0][1], v[3][1][1]
        x = hi - 1 if back else lo
        nv = ("agg", v[1], v[2], (("int", lo), ("int", hi - 1)) if back else (("int", lo + 1), ("int", hi)))
        s.write(a, ("rev", nv) if rev else nv)
        out += ip.finish(s, t, some(("int", x)))
    return out


@over("std::iter::Iterator::rev")
def rev(ip, st, args, t, f):
    v = args[0]
    if v[0] == "agg" and v[1].startswith("std::ops::Range"):
        return ip.finish(st, t, ("rev", v))
    from .colls import rev as r
    return r(ip, st, args, t, f)
