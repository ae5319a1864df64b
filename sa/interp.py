import time
"""Forward abstract interpretation of MIR over abstract heaps (shape analysis).

Abstract state: frames of locals, a heap of materialised nodes, opaque subtrees, words (in-order
contents) over entries and subtrees, an order relation on keys, linear facts on integers.
States are propagated through the control-flow graph; at loop heads the heap is folded
(materialised nodes no live reference needs become opaque subtrees / contexts) and states are
merged up to renaming, so loops reach a fixpoint. Recursive functions are summarised by contracts.
"""
from .lin import Lin, C, V, infeasible, implies

NONNEG = "nhbi"  # sizes, heights, black heights, unsigned inputs


def num(s):
    d = "".join(c for c in s if c.isdigit())
    return int(d) if d else 0


OPTION = "std::option::Option"
ORDERING = "std::cmp::Ordering"
RESULT = "std::result::Result"
BOX = "std::boxed::Box"
VEC = "std::vec::Vec"


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Bug(Exception):
    """the path reached so far already breaks the property"""

    def __init__(self, cat, text):
        Exception.__init__(self, text)
        self.cat, self.text = cat, text


class NeedOpen(Exception):
    """a folded node has to be materialised before this step"""

    def __init__(self, hid):
        self.hid = hid


UNIT = ("agg", "tuple", 0, ())
NONE = ("agg", OPTION, 0, ())
MOVED = ("moved",)
TRUE = ("bool", True)
FALSE = ("bool", False)


def some(v):
    return ("agg", OPTION, 1, (v,))


def tup(*a):
    return ("agg", "tuple", 0, tuple(a))


def integer(x):
    return ("int", x if isinstance(x, Lin) else C(x))


def ordering(n):
    return ("agg", ORDERING, {-1: 0, 0: 1, 1: 2}[n], ())


class Frame:
    __slots__ = ("fid", "fn", "bb", "locals", "dest", "ret", "cont")

    def __init__(self, fid, fn, bb, locals_, dest, ret, cont=None):
        self.fid, self.fn, self.bb, self.locals, self.dest, self.ret, self.cont = fid, fn, bb, locals_, dest, ret, cont

    def copy(self):
        return Frame(self.fid, self.fn, self.bb, dict(self.locals), self.dest, self.ret, self.cont)


class State:
    peek = None  # set by the domain: reads a structural field of a folded node

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.mat = {}      # tree sym -> tuple of items it was materialised / split into
        self.alt = {}      # tree sym -> tuple of items its content is known to be
        self.info = {}     # tree sym -> dict of domain info (immutable by convention)
        self.nonempty = {} # tree sym -> True/False when known
        self.lt = frozenset()   # pairs (a, b): every key of a < every key of b
        self.eqk = {}      # key sym -> representative
        self.dom = frozenset()  # pairs (p, x): priority p >= every priority in x
        self.lin = ()      # tuple of Lin, each >= 0 (over variables not in eqs)
        self.eqs = {}      # solved variable -> Lin
        self.ghost = {}
        self.trace = ()
        self.taint = ()
        self.n = 0
        self.seen = ()
        self.mem = {}      # domain-private per-state data

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.mat = dict(self.mat)
        s.alt = dict(self.alt)
        s.info = dict(self.info)
        s.nonempty = dict(self.nonempty)
        s.lt, s.dom, s.lin = self.lt, self.dom, self.lin
        s.eqs = dict(self.eqs)
        s.eqk = dict(self.eqk)
        s.ghost = dict(self.ghost)
        s.trace, s.taint, s.n, s.seen = self.trace, self.taint, self.n, self.seen
        s.mem = dict(self.mem)
        return s

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def note(self, m):
        self.trace = self.trace + (m,)

    # ----- keys -----
    def rep(self, k):
        while k in self.eqk:
            k = self.eqk[k]
        return k

    def solid(self, x):
        return (not x.startswith("t")) or self.nonempty.get(x) is True

    def is_lt(self, a, b):
        return (self.rep(a), self.rep(b)) in self.lt

    def add_lt(self, pairs):
        lt = set(self.lt)
        work = [(self.rep(a), self.rep(b)) for a, b in pairs]
        while work:
            a, b = work.pop()
            if (a, b) in lt:
                continue
            if a == b and self.solid(a):
                raise Infeasible()
            if (b, a) in lt and self.solid(a) and self.solid(b):
                raise Infeasible()
            lt.add((a, b))
            if self.solid(a):
                for x, y in list(lt):
                    if y == a:
                        work.append((x, b))
            if self.solid(b):
                for x, y in list(lt):
                    if x == b:
                        work.append((a, y))
        self.lt = frozenset(lt)

    def set_nonempty(self, t, v):
        old = self.nonempty.get(t)
        if old is not None and old != v:
            raise Infeasible()
        if old == v:
            return
        self.nonempty[t] = v
        if v:
            # transitivity through t becomes valid
            xs = [a for a, b in self.lt if b == t]
            ys = [b for a, b in self.lt if a == t]
            self.add_lt([(a, b) for a in xs for b in ys])

    def unify_keys(self, a, b):
        a, b = self.rep(a), self.rep(b)
        if a == b:
            return
        if (a, b) in self.lt or (b, a) in self.lt:
            raise Infeasible()
        self.eqk[a] = b
        pairs = [(b if x == a else x, b if y == a else y) for x, y in self.lt]
        self.lt = frozenset()
        self.add_lt(pairs)

    # ----- integers -----
    def red(self, l):
        return l.subst(self.eqs) if self.eqs else l

    def add_ge(self, l):
        l = self.red(l)
        k = l.const()
        if k is not None:
            if k < 0:
                raise Infeasible()
            return
        if l.c >= 0 and all(v > 0 and s[0] in NONNEG for s, v in l.t):
            return
        if l in self.lin:
            return
        self.lin = self.lin + (l,)
        if infeasible(self.relevant_lin(l)):
            raise Infeasible()

    def add_eq(self, l):
        l = self.red(l)
        k = l.const()
        if k is not None:
            if k != 0:
                raise Infeasible()
            return
        if l.c > 0 and all(v > 0 and s[0] in NONNEG for s, v in l.t) or l.c < 0 and all(v < 0 and s[0] in NONNEG for s, v in l.t):
            raise Infeasible()
        unit = [(s, v) for s, v in l.t if abs(v) == 1]
        if not unit:
            self.add_ge(l)
            self.add_ge(-l)
            return
        # prefer the most recent symbol
        var, co = max(unit, key=lambda x: (num(x[0]), x[0]))
        rest = Lin(tuple((s, v) for s, v in l.t if s != var), l.c)
        sol = rest.scale(-co)
        m = {var: sol}
        self.eqs = {k2: v2.subst(m) for k2, v2 in self.eqs.items()}
        self.eqs[var] = sol
        old = self.lin
        self.lin = ()
        if var[0] in NONNEG:
            self.add_ge(sol)
        for c in old:
            self.add_ge(c.subst(m))

    def all_lin(self):
        r = list(self.lin)
        vs = set()
        for l in self.lin:
            vs.update(l.syms())
        for v in vs:
            if v[0] in NONNEG:
                r.append(V(v))
        return r

    def relevant_lin(self, goal):
        vs = set(k for k, _ in goal.t)
        chosen = []
        rest = self.lin
        while True:
            keep, n = [], len(chosen)
            for l in rest:
                for k, _ in l.t:
                    if k in vs:
                        chosen.append(l)
                        for k2, _ in l.t:
                            vs.add(k2)
                        break
                else:
                    keep.append(l)
            if len(chosen) == n or not keep:
                break
            rest = keep
        for v in vs:
            if v[0] in NONNEG:
                chosen.append(V(v))
        return chosen

    def ge(self, l):
        """True if provably >= 0"""
        l = self.red(l)
        k = l.const()
        if k is not None:
            return k >= 0
        return implies(self.relevant_lin(l), l)

    def sign_options(self, l):
        """possible signs of l, as list among -1,0,1"""
        l = self.red(l)
        k = l.const()
        if k is not None:
            return [(k > 0) - (k < 0)]
        cons = self.relevant_lin(l)
        r = []
        if not infeasible(cons + [(-l) - 1]):
            r.append(-1)
        if not infeasible(cons + [l, -l]):
            r.append(0)
        if not infeasible(cons + [l - 1]):
            r.append(1)
        return r

    # ----- frames / places -----
    @property
    def top(self):
        return self.frames[-1]

    def frame(self, fid):
        for f in self.frames:
            if f.fid == fid:
                return f
        raise Unsupported("dangling frame")

    def root_get(self, root):
        if root[0] == "l":
            f = self.frame(root[1])
            v = f.locals.get(root[2])
            if v is None:
                return MOVED
            return v
        if root[0] == "h":
            if root[1] not in self.heap:
                raise Unsupported("dangling heap ref")
            return self.heap[root[1]]
        if root[0] == "ent":
            v = UNIT if root[2] == "unit" else ("val", root[2])
            if root[1] is None:
                return v
            return ("agg", "crate::entry::Entry", 0, (("key", root[1]), v))
        if root[0] == "const":
            return root[1]
        raise Unsupported("root %r" % (root,))

    def root_set(self, root, v):
        if root[0] == "l":
            self.frame(root[1]).locals[root[2]] = v
        elif root[0] == "h":
            self.heap[root[1]] = v
        elif root[0] == "ent":
            raise Unsupported("write through folded entry")
        else:
            raise Unsupported("write to %r" % (root,))

    def read(self, addr):
        root, proj = addr
        v = self.root_get(root)
        if proj and v[0] == "tnode":
            x = self.peek(self, v[1], proj)
            if x is None:
                raise NeedOpen(root[1])
            return x
        for e in proj:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        t = v[0]
        if t == "agg":
            if e >= len(v[3]):
                raise Unsupported("field %s of %s" % (e, v[1]))
            return v[3][e]
        if t == "closure":
            return v[2][e]
        if t == "top":
            return v
        if t == "ctx" and e == 0:
            raise Unsupported("read through context")
        if t == "box":
            return ("boxraw", v[1])
        if t == "boxraw":
            return v
        if t == "moved":
            raise Unsupported("use of moved value")
        if t == "md" and e == 0:
            return v[1]
        if t == "dead":
            raise Bug(v[1], v[2])
        if t == "coll":
            return v[2][e]
        if t == "lvls":
            return v[2][e][1]
        raise Unsupported("project %s of %s" % (e, t))

    def write(self, addr, val):
        root, proj = addr
        if not proj:
            self.root_set(root, val)
            return

        def upd(v, pr):
            if not pr:
                return val
            if v[0] == "agg":
                e = pr[0]
                fs = list(v[3])
                while len(fs) <= e:
                    fs.append(MOVED)
                fs[e] = upd(fs[e], pr[1:])
                return ("agg", v[1], v[2], tuple(fs))
            if v[0] == "closure":
                fs = list(v[2])
                fs[pr[0]] = upd(fs[pr[0]], pr[1:])
                return ("closure", v[1], tuple(fs))
            if v[0] == "moved":
                fs = [MOVED] * (pr[0] + 1)
                fs[pr[0]] = upd(MOVED, pr[1:])
                return ("agg", "?", 0, tuple(fs))
            if v[0] == "coll":
                fs = list(v[2])
                fs[pr[0]] = upd(fs[pr[0]], pr[1:])
                return v[:2] + (tuple(fs),) + v[3:]
            if v[0] == "lvls":
                fs = list(v[2])
                fs[pr[0]] = (fs[pr[0]][0], upd(fs[pr[0]][1], pr[1:]))
                return v[:2] + (tuple(fs),) + v[3:]
            raise Unsupported("write into %s" % (v[0],))

        old = self.root_get(root)
        if old[0] == "tnode":
            raise NeedOpen(root[1])
        self.root_set(root, upd(old, proj))

    def deref(self, v):
        if v[0] == "ref":
            return v[1]
        if v[0] in ("box", "boxraw"):
            return (("h", v[1]), ())
        if v[0] == "top":
            raise Unsupported("deref of unknown (%s)" % v[1])
        if v[0] == "null":
            raise Bug("S02", "a null link is followed")
        raise Unsupported("deref of %s" % v[0])

    def strip_refs(self, v):
        """follow references until a non-reference value"""
        n = 0
        while v[0] == "ref":
            v = self.read(v[1])
            n += 1
            if n > 10:
                raise Unsupported("ref depth")
        return v


class Outcome:
    """A finished abstract path: kind in {'return','panic'}"""

    def __init__(self, kind, state, value=None, msg="", where=""):
        self.kind, self.state, self.value, self.msg, self.where = kind, state, value, msg, where


T0 = time.time()


class Interp:
    MAXSTEPS = 60000
    SECONDS = 620           # of the process, so that a run ends undecided rather than not at all

    def __init__(self, prog, domain, contracts=None, models=None):
        self.prog = prog
        self.dom = domain
        domain.interp = self
        self.contracts = contracts or {}
        self.models = models or {}
        self.steps = 0
        self.stats = {"states": 0, "blocks": set(), "fns": set(), "forks": 0, "calls": 0, "folds": 0, "widenings": 0}
        self.unsupported = []
        self.callgraph = None
        from . import stdmodels
        self.std = stdmodels.MODELS
        self._loopheads = {}
        self._live = {}
        self._recset = None

    # ---------- call graph ----------
    def recursive(self, path):
        if self._recset is None:
            g = {}
            for p, f in self.prog.fns.items():
                o = set()
                for b, t in f.calls():
                    if t["f"]:
                        o.add(t["f"].get("rpath") or t["f"]["path"])
                for blk in f.blocks:
                    for st in blk["s"]:
                        if st["k"] == "assign" and st["r"]["k"] == "agg" and st["r"].get("a") == "closure":
                            o.add(st["r"]["path"])
                g[p] = {x for x in o if x in self.prog.fns}
            # recursive = in a cycle
            rec = set()
            for p in g:
                seen, st = set(), list(g[p])
                while st:
                    x = st.pop()
                    if x == p:
                        rec.add(p)
                        break
                    if x in seen:
                        continue
                    seen.add(x)
                    st.extend(g.get(x, ()))
            self._recset = rec
        return path in self._recset

    # ---------- loop heads ----------
    def loopheads(self, fn):
        r = self._loopheads.get(fn.path)
        if r is None:
            heads = set()
            color = {}
            st = [(0, iter(fn.succs(0)))]
            color[0] = 1
            while st:
                b, it = st[-1]
                for x in it:
                    if color.get(x) == 1:
                        heads.add(x)
                    elif x not in color:
                        color[x] = 1
                        st.append((x, iter(fn.succs(x))))
                        break
                else:
                    color[b] = 2
                    st.pop()
            r = self._loopheads[fn.path] = heads
        return r

    # ---------- liveness ----------
    def live_in(self, fn, drops=True):
        """locals live at each block's entry; drops=False leaves those out that are only going to be dropped"""
        r = self._live.get((fn.path, drops))
        if r is not None:
            return r
        n = len(fn.blocks)
        use, deff = [set() for _ in range(n)], [set() for _ in range(n)]

        def uplace(p, b, is_def=False):
            if is_def and not p["p"]:
                return
            if p["l"] not in deff[b]:
                use[b].add(p["l"])
            for e in p["p"]:
                if e["k"] == "index" and e["l"] not in deff[b]:
                    use[b].add(e["l"])

        def uop(o, b):
            if o["k"] in ("copy", "move"):
                uplace(o["p"], b)

        for b, blk in enumerate(fn.blocks):
            for s in blk["s"]:
                if s["k"] == "assign":
                    rv = s["r"]
                    for key in ("o", "l", "r"):
                        if isinstance(rv.get(key), dict):
                            uop(rv[key], b)
                    for o in rv.get("ops", []):
                        uop(o, b)
                    if "p" in rv:
                        uplace(rv["p"], b)
                    uplace(s["p"], b, True)
                    if not s["p"]["p"]:
                        if s["p"]["l"] not in use[b]:
                            deff[b].add(s["p"]["l"])
            t = blk["t"]
            if t["k"] == "call":
                for o in t["args"]:
                    uop(o, b)
                uop(t["fo"], b)
                uplace(t["d"], b, True)
            elif t["k"] == "switch":
                uop(t["d"], b)
            elif t["k"] == "drop":
                if drops:
                    uplace(t["p"], b)
            elif t["k"] == "assert":
                uop(t["c"], b)
            elif t["k"] == "return":
                if 0 not in deff[b]:
                    use[b].add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for x in fn.succs(b):
                    out |= live[x]
                t = fn.blocks[b]["t"]
                if t["k"] == "call" and not t["d"]["p"]:
                    out.discard(t["d"]["l"])
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self._live[(fn.path, drops)] = live
        return live

    # ---------- place resolution ----------
    def addr(self, st, place):
        f = st.top
        root, proj = ("l", f.fid, place["l"]), ()
        for e in place["p"]:
            k = e["k"]
            if k == "deref":
                v = st.read((root, proj))
                root, proj = st.deref(v)
            elif k == "field":
                proj = proj + (e["i"],)
            elif k == "downcast":
                pass
            else:
                raise Unsupported("projection " + k)
        return (root, proj)

    def operand(self, st, o):
        k = o["k"]
        if k == "const":
            return self.const(o)
        if k in ("copy", "move"):
            a = self.addr(st, o["p"])
            v = st.read(a)
            if k == "move":
                if v[0] == "moved":
                    raise Unsupported("move of moved value")
                if v[0] not in ("bool", "int"):
                    st.write(a, MOVED)
            return v
        if k == "rtcheck":
            return FALSE
        raise Unsupported("operand " + k)

    def const(self, o):
        ty = self.prog.types[o["ty"]]
        if ty["k"] == "fndef":
            return ("fn", ty["path"], o)
        if o["v"] is not None:
            if ty["s"] == "bool":
                return TRUE if o["v"] else FALSE
            return integer(o["v"])
        if ty["s"] == "()":
            return UNIT
        if ty["k"] == "ref" and self.prog.types[ty["t"]]["s"] == "str":
            return ("ref", (("const", ("str", o["s"])), ()))
        if "promoted" in o and o.get("def") in self.prog.fns:
            b = self.prog.fns[o["def"]].d["promoted"][o["promoted"]]
            v = self.eval_promoted(b)
            if v is not None:
                return v
        if o.get("def") in self.prog.consts and self.prog.consts[o["def"]] is not None:
            return integer(self.prog.consts[o["def"]])
        return ("top", "const " + o["s"][:60])

    def eval_promoted(self, b):
        """promoted constants: evaluate straight-line aggregate construction"""
        env = {}
        blk = b["blocks"][0]
        if blk["t"]["k"] != "return":
            return None
        try:
            for s in blk["s"]:
                if s["k"] != "assign":
                    continue
                if s["p"]["p"]:
                    return None
                r = s["r"]

                def op(o):
                    if o["k"] == "const":
                        return self.const(o)
                    if o["p"]["p"]:
                        raise KeyError
                    return env[o["p"]["l"]]

                if r["k"] == "use":
                    v = op(r["o"])
                elif r["k"] == "agg":
                    v = self.mkagg(r, [op(o) for o in r["ops"]])
                elif r["k"] == "ref":
                    if r["p"]["p"]:
                        return None
                    v = ("ref", (("const", env[r["p"]["l"]]), ()))
                else:
                    return None
                env[s["p"]["l"]] = v
            return env.get(0)
        except KeyError:
            return None

    def mkagg(self, r, ops):
        a = r["a"]
        if a == "adt":
            return ("agg", r["path"], r["v"], tuple(ops))
        if a == "tuple":
            return ("agg", "tuple", 0, tuple(ops))
        if a == "closure":
            return ("closure", r["path"], tuple(ops))
        if a == "array":
            return ("agg", "array", 0, tuple(ops))
        raise Unsupported("aggregate " + a)

    # ---------- forks ----------
    def fork(self, st, alts, where=""):
        """alts: list of (note, fn(state)) -> list of states that remain feasible"""
        out = []
        for note, f in alts:
            s = st.copy()
            try:
                r = f(s)
            except Infeasible:
                continue
            if note:
                s.note(note)
            out.append((s, r))
        if len(out) > 1:
            self.stats["forks"] += 1
        return out

    def decide_sign(self, st, l, desc=""):
        """split on the sign of l: list of (state, sign)"""
        opts = st.sign_options(l)
        out = []
        for sg in opts:
            s = st if len(opts) == 1 else st.copy()
            try:
                if len(opts) > 1:
                    if sg == 0:
                        s.add_eq(l)
                    elif sg > 0:
                        s.add_ge(l - 1)
                    else:
                        s.add_ge((-l) - 1)
                    s.note("%s %s 0" % (desc or l, {-1: "<", 0: "=", 1: ">"}[sg]))
            except Infeasible:
                continue
            out.append((s, sg))
        return out

    def cmp_keys(self, st, a, b, names=None):
        ra, rb = st.rep(a), st.rep(b)
        nm = names or ("%s" % a, "%s" % b)
        if ra == rb:
            return [(st, 0)]
        if (ra, rb) in st.lt:
            return [(st, -1)]
        if (rb, ra) in st.lt:
            return [(st, 1)]
        out = []
        for sg in (-1, 0, 1):
            s = st.copy()
            try:
                if sg < 0:
                    s.add_lt([(a, b)])
                elif sg > 0:
                    s.add_lt([(b, a)])
                else:
                    s.unify_keys(a, b)
            except Infeasible:
                continue
            s.note("%s %s %s" % (nm[0], {-1: "<", 0: "=", 1: ">"}[sg], nm[1]))
            out.append((s, sg))
        self.stats["forks"] += 1
        return out

    def cmp_values(self, st, a, b):
        """three-way comparison of two values (through references): list of (state, sign)"""
        a, b = st.strip_refs(a), st.strip_refs(b)
        if a[0] == "key" and b[0] == "key":
            return self.cmp_keys(st, a[1], b[1])
        if a[0] == "int" and b[0] == "int":
            return self.decide_sign(st, a[1] - b[1])
        if a[0] == "prio" and b[0] == "prio":
            return self.dom.cmp_prio(st, a[1], b[1])
        if a[0] == "bool" and b[0] == "bool":
            return [(st, (a[1] > b[1]) - (a[1] < b[1]))]
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1]:
            if a[1] == "crate::entry::Entry":
                return self.cmp_values(st, a[3][0], b[3][0])
            if a[2] != b[2]:
                return [(st, -1 if a[2] < b[2] else 1)]
            outs = [(st, 0)]
            for x, y in zip(a[3], b[3]):
                nxt = []
                for s, sg in outs:
                    if sg != 0:
                        nxt.append((s, sg))
                    else:
                        nxt.extend(self.cmp_values(s, x, y))
                outs = nxt
            return outs
        if a[0] == "top" or b[0] == "top":
            out = []
            for sg in (-1, 0, 1):
                s = st.copy()
                s.taint = s.taint + ("compare unknown",)
                out.append((s, sg))
            return out
        raise Unsupported("compare %s with %s" % (a[0], b[0]))

    def decide_rel(self, st, op, a, b):
        """decide a comparison: list of (state, truth). A domain may ask for two cases instead of three"""
        if getattr(self.dom, "twoway", False) and op in ("Lt", "Le", "Gt", "Ge"):
            x, y = st.strip_refs(a), st.strip_refs(b)
            if x[0] == "int" and y[0] == "int":
                d = {"Lt": y[1] - x[1] - 1, "Le": y[1] - x[1], "Gt": x[1] - y[1] - 1, "Ge": x[1] - y[1]}[op]
                out = []
                for truth, l in ((True, d), (False, (-d) - 1)):
                    s = st.copy()
                    try:
                        s.add_ge(l)
                    except Infeasible:
                        continue
                    s.note("%s %s %s is %s" % (x[1], op, y[1], truth))
                    out.append((s, truth))
                if len(out) == 1:
                    return [(st, out[0][1])]
                return out
        return [(s, self.rel(op, sg)) for s, sg in self.cmp_values(st, a, b)]

    def force_option(self, st, addr):
        """make the Option/tree value at addr concrete; list of states"""
        v = st.read(addr)
        if v[0] == "tree":
            return self.dom.materialize(st, addr, v)
        if v[0] == "agg":
            return [st]
        if v[0] == "top":
            raise Unsupported("option unknown: %s" % v[1])
        if v[0] == "ctx":
            return self.dom.close_context(st, addr, v)
        raise Unsupported("option %s" % v[0])

    # ---------- running ----------
    def run(self, st):
        """run until all frames above the base have returned. returns list of Outcome"""
        outs = []
        work = [st]
        visited = {}
        base = len(st.frames)
        while work:
            s = work.pop()
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Unsupported("step budget exhausted")
            if self.steps % 256 == 0 and time.time() - T0 > self.SECONDS:
                raise Unsupported("time budget exhausted")
            try:
                for r in self.step_block(s, visited):
                    if isinstance(r, Outcome):
                        outs.append(r)
                    else:
                        work.append(r)
            except Infeasible:
                continue
            except Unsupported as e:
                if not getattr(self.dom, "tolerant", False):
                    raise
                self.unsupported.append("%s at %s" % (e, self.where(s)))
            except Bug as e:
                o = Outcome("bug", s, None, e.text, self.where(s))
                o.cat = e.cat
                outs.append(o)
        return outs

    def where(self, st):
        f = st.top
        return "%s %s" % (f.fn.path, f.fn.blocks[f.bb]["t"].get("sp", ""))

    def step_block(self, st, visited):
        f = st.top
        fn = f.fn
        bb = f.bb
        self.stats["states"] += 1
        self.stats["blocks"].add((fn.path, bb))
        self.stats["fns"].add(fn.path)
        if bb in self.loopheads(fn):
            cnt = st.mem.get(("visits", fn.path, bb, len(st.frames)), 0)
            st.mem[("visits", fn.path, bb, len(st.frames))] = cnt + 1
            if cnt > getattr(self.dom, "maxfolds", 40):
                raise Unsupported("loop did not converge in %s" % fn.path)
            if True:
                self.stats["folds"] += 1
                st = self.dom.fold(st)
                key, nums, inv = self.dom.canon(st)
                lst = visited.setdefault((tuple((x.fn.path, x.bb) for x in st.frames)), {})
                if key in lst:
                    kept = self.dom.weaken(st, lst[key], inv)
                    if kept is None:
                        self.stats["widenings"] += 1
                        return []
                    lst[key] = kept
                else:
                    lst[key] = nums
            f = st.top
        blk = fn.blocks[bb]
        states = [st]
        for s in blk["s"]:
            nxt = []
            for x in states:
                nxt.extend(self.guarded(self.stmt, x, s))
            states = nxt
        out = []
        for x in states:
            try:
                out.extend(self.guarded(self.term, x, blk["t"]))
            except Infeasible:
                pass
        return out

    def places(self, x):
        """places read or written by a statement / terminator (cached on the node)"""
        r = x.get("_pl")
        if r is None:
            r = []

            def op(o):
                if isinstance(o, dict) and o.get("k") in ("copy", "move"):
                    r.append(o["p"])

            if x["k"] == "assign":
                rv = x["r"]
                for key in ("o", "l", "r"):
                    op(rv.get(key))
                for o in rv.get("ops", []):
                    op(o)
                if "p" in rv:
                    r.append(rv["p"])
                r.append(x["p"])
            elif x["k"] == "switch":
                op(x["d"])
            elif x["k"] == "drop":
                r.append(x["p"])
            elif x["k"] == "assert":
                op(x["c"])
            elif x["k"] == "call":
                for o in x["args"]:
                    op(o)
                op(x["fo"])
                r.append(x["d"])
            r = [p for p in r if p["p"]]
            x["_pl"] = r
        return r

    def probe(self, st, place):
        root, proj = ("l", st.top.fid, place["l"]), ()
        for e in place["p"]:
            k = e["k"]
            if k == "deref":
                v = st.read((root, proj))
                if v[0] not in ("ref", "box", "boxraw"):
                    return
                root, proj = st.deref(v)
            elif k == "field":
                proj = proj + (e["i"],)
                if root[0] == "h":
                    v = st.heap.get(root[1])
                    if v is not None and v[0] == "tnode" and st.peek(st, v[1], proj) is None:
                        raise NeedOpen(root[1])

    def guarded(self, fn, st, arg):
        need = None
        try:
            for p in self.places(arg):
                self.probe(st, p)
        except NeedOpen as e:
            need = e.hid
        except Unsupported:
            pass
        if need is None:
            k = arg["k"]
            if k in ("goto", "return", "unreachable", "switch", "live", "dead"):
                return fn(st, arg)
            if k == "assign" and arg["r"]["k"] in ("ref", "addr", "agg", "bin"):
                pl = arg["p"]
                if not any(e["k"] == "deref" for e in pl["p"]):
                    return fn(st, arg)
            if k == "call" and arg["f"] is not None and (arg["f"].get("rpath") or arg["f"]["path"]) in self.prog.fns:
                pl = arg["d"]
                if not pl["p"]:
                    return fn(st, arg)
            if not any(v[0] == "tnode" for v in st.heap.values()):
                return fn(st, arg)
            back = st.copy()
            try:
                return fn(st, arg)
            except NeedOpen as e:
                need = e.hid
                st = back
        out = []
        for s in self.dom.open_node(st, need):
            try:
                out.extend(self.guarded(fn, s, arg))
            except Infeasible:
                pass
        return out

    def stmt(self, st, s):
        k = s["k"]
        if k == "assign":
            res = []
            for x, v in self.rvalue(st, s["r"]):
                a = self.addr(x, s["p"])
                x.write(a, v)
                res.append(x)
            return res
        if k in ("live", "dead"):
            if k == "dead":
                st.top.locals.pop(s["l"], None)
            return [st]
        if k == "intrinsic":
            return [st]
        raise Unsupported("stmt " + k)

    def rvalue(self, st, r):
        k = r["k"]
        if k == "use":
            return [(st, self.operand(st, r["o"]))]
        if k in ("ref", "addr"):
            return [(st, ("ref", self.addr(st, r["p"])))]
        if k == "agg":
            ops = [self.operand(st, o) for o in r["ops"]]
            return [(st, self.mkagg(r, ops))]
        if k == "discr":
            a = self.addr(st, r["p"])
            v = st.read(a)
            if v[0] in ("tree", "ctx"):
                return [(x, self.discr(x, x.read(a))) for x in self.force_option(st, a)]
            return [(st, self.discr(st, v))]
        if k == "cast":
            v = self.operand(st, r["o"])
            if v[0] == "boxraw":
                return [(st, ("ref", (("h", v[1]), ())))]
            if r["ck"].startswith(("IntToInt", "PtrToPtr", "PointerCoercion", "Transmute", "BoxDeref", "Subtype")):
                if v[0] == "agg" and v[1] == ORDERING:
                    return [(st, integer({0: -1, 1: 0, 2: 1}[v[2]]))]
                return [(st, v)]
            return [(st, ("top", "cast"))]
        if k == "bin":
            l = self.operand(st, r["l"])
            rr = self.operand(st, r["r"])
            return self.binop(st, r, l, rr)
        if k == "un":
            v = self.operand(st, r["o"])
            if r["op"] == "Not" and v[0] == "bool":
                return [(st, ("bool", not v[1]))]
            if r["op"] == "Neg" and v[0] == "int":
                return [(st, ("int", -v[1]))]
            if v[0] == "top":
                return [(st, v)]
            raise Unsupported("unop")
        if k == "repeat":
            return [(st, ("top", "repeat"))]
        raise Unsupported("rvalue " + k)

    def discr(self, st, v):
        if v[0] == "agg":
            adt = self.prog.adts.get(v[1])
            if adt and adt["kind"] == "enum":
                return integer(adt["variants"][v[2]]["discr"])
            return integer(v[2])
        if v[0] == "bool":
            return integer(1 if v[1] else 0)
        if v[0] == "top":
            return v
        raise Unsupported("discriminant of %s" % v[0])

    def binop(self, st, r, l, rr):
        op = r["op"]
        if l[0] == "top" or rr[0] == "top":
            why = l[1] if l[0] == "top" else rr[1]
            v = ("top", why)
            if op.endswith("WithOverflow"):
                return [(st, tup(v, FALSE))]
            return [(st, v)]
        if l[0] == "int" and rr[0] == "int":
            a, b = l[1], rr[1]
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            wo = op.endswith("WithOverflow")
            if base in ("Add", "Sub"):
                v = a + b if base == "Add" else a - b
                if base == "Sub" and wo and self.prog.types[r["lt"]]["s"] in ("usize", "u64", "u32", "u8", "u16"):
                    if st.ge(v):
                        return [(st, tup(("int", v), FALSE))]
                    out = []
                    s1 = st.copy()
                    try:
                        s1.add_ge(v)
                        out.append((s1, tup(("int", v), FALSE)))
                    except Infeasible:
                        pass
                    s2 = st.copy()
                    try:
                        s2.add_ge((-v) - 1)
                        s2.note("%s underflows" % v)
                        out.append((s2, tup(("int", v), TRUE)))
                    except Infeasible:
                        pass
                    return out
                return [(st, tup(("int", v), FALSE) if wo else ("int", v))]
            if base == "Mul":
                if a.const() is not None:
                    v = b.scale(a.const())
                elif b.const() is not None:
                    v = a.scale(b.const())
                else:
                    return [(st, tup(("top", "mul"), FALSE) if wo else ("top", "mul"))]
                return [(st, tup(("int", v), FALSE) if wo else ("int", v))]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return [(s, ("bool", b1)) for s, b1 in self.decide_rel(st, op, ("int", a), ("int", b))]
            return [(st, ("top", op))]
        if l[0] == "bool" and rr[0] == "bool":
            f = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "BitAnd": lambda x, y: x and y,
                 "BitOr": lambda x, y: x or y, "BitXor": lambda x, y: x != y}.get(op)
            if f:
                return [(st, ("bool", f(l[1], rr[1])))]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and l[0] == rr[0] == "prio":
            return [(s, ("bool", self.rel(op, sg))) for s, sg in self.dom.cmp_prio(st, l[1], rr[1])]
        raise Unsupported("binop %s on %s,%s" % (op, l[0], rr[0]))

    @staticmethod
    def rel(op, sg):
        return {"Eq": sg == 0, "Ne": sg != 0, "Lt": sg < 0, "Le": sg <= 0, "Gt": sg > 0, "Ge": sg >= 0}[op]

    def goto(self, st, b):
        st.top.bb = b
        return st

    def panic(self, st, msg):
        return [Outcome("panic", st, None, msg, self.where(st))]

    def term(self, st, t):
        k = t["k"]
        if k == "goto":
            return [self.goto(st, t["t"])]
        if k == "return":
            f = st.top
            v = f.locals.get(0, UNIT)
            if len(st.frames) == 1:
                return [Outcome("return", st, v)]
            st.frames.pop()
            if f.cont is not None:
                return f.cont(st, v)
            st.write(f.dest, v)
            if f.ret is None:
                return []
            return [self.goto(st, f.ret)]
        if k == "switch":
            d = self.operand(st, t["d"])
            if d[0] == "bool":
                d = integer(1 if d[1] else 0)
            if d[0] == "top":
                out = []
                for b in sorted({x[1] for x in t["cases"]} | {t["else"]}):
                    if st.top.fn.blocks[b]["t"]["k"] == "unreachable":
                        continue
                    s = st.copy()
                    s.taint = s.taint + ("branch on unknown %s" % d[1],)
                    out.append(self.goto(s, b))
                return out
            if d[0] != "int":
                raise Unsupported("switch on " + d[0])
            c = d[1].const()
            if c is None:
                out = []
                rest = st
                for v, b in t["cases"]:
                    s = rest.copy()
                    try:
                        s.add_eq(d[1] - v)
                        out.append(self.goto(s, b))
                    except Infeasible:
                        pass
                s = st.copy()
                if len(t["cases"]) == 1 and t["cases"][0][0] == 0:
                    try:
                        s.add_ge(d[1] - 1)
                    except Infeasible:
                        s = None
                if s is not None and s.top.fn.blocks[t["else"]]["t"]["k"] != "unreachable":
                    out.append(self.goto(s, t["else"]))
                return out
            tgt = t["else"]
            for v, b in t["cases"]:
                if v == c or v == (c & 0xff) or v == (c & 0xffffffffffffffff):
                    tgt = b
                    break
            return [self.goto(st, tgt)]
        if k == "drop":
            a = self.addr(st, t["p"])
            self.drop_value(st, a)
            return [self.goto(st, t["t"])]
        if k == "assert":
            c = self.operand(st, t["c"])
            if c[0] == "bool":
                if c[1] == t["exp"]:
                    return [self.goto(st, t["t"])]
                return self.panic(st, "assertion: " + t["m"][:80])
            s = st.copy()
            return [self.goto(s, t["t"])]
        if k == "unreachable":
            return []
        if k == "call":
            return self.call(st, t)
        raise Unsupported("terminator " + k)

    def drop_value(self, st, a):
        v = st.read(a)
        self.dom.on_drop(st, v)
        st.write(a, MOVED)

    # ---------- calls ----------
    def call(self, st, t):
        args = [self.operand(st, o) for o in t["args"]]
        self.stats["calls"] += 1
        f = t["f"]
        if f is None:
            fv = self.operand(st, t["fo"])
            return self.call_value(st, fv, args, t)
        path = f.get("rpath") or f["path"]
        return self.call_path(st, path, f, args, t)

    def finish(self, st, t, v):
        """write call result and continue"""
        if t["t"] is None:
            return []
        st.write(self.addr(st, t["d"]), v)
        return [self.goto(st, t["t"])]

    def call_path(self, st, path, f, args, t):
        if path in self.contracts and self.recursive(path):
            out = []
            for s, v in self.contracts[path](self, st, args):
                out.extend(self.finish(s, t, v) if not isinstance(v, Outcome) else [v])
            return out
        if path in self.models:
            return self.models[path](self, st, args, t)
        if path in self.prog.fns:
            return self.inline(st, self.prog.fns[path], args, t)
        m = self.find_std(path, f)
        if m is not None:
            return m(self, st, args, t, f)
        raise Unsupported("call to " + path)

    def find_std(self, path, f):
        m = self.std.get(path)
        if m:
            return m
        m = self.std.get(f["path"])
        if m:
            return m
        for pred, m in self.std.get("__preds__", []):
            if pred(path, f):
                return m
        return None

    def inline(self, st, fn, args, t, cont=None):
        if self.recursive(fn.path) and any(x.fn.path == fn.path for x in st.frames):
            raise Unsupported("recursion without contract: " + fn.path)
        if len(st.frames) > 24:
            raise Unsupported("inline depth")
        dest = None
        ret = None
        if t is not None:
            dest = self.addr(st, t["d"])
            ret = t["t"]
        st.n += 1
        fr = Frame("f%d" % st.n, fn, 0, {}, dest, ret, cont)
        if fn.kind == "Closure" and fn.argc != len(args):
            # a direct call passes the arguments as one tuple
            if len(args) == 2 and args[1][0] == "agg" and args[1][1] == "tuple" and fn.argc == 1 + len(args[1][3]):
                args = [args[0]] + list(args[1][3])
        if fn.kind == "Closure" and fn.argc != len(args):
            raise Unsupported("closure arity")
        for i, a in enumerate(args):
            fr.locals[i + 1] = a
        st.frames.append(fr)
        return [st]

    def call_value(self, st, fv, args, t, cont=None):
        """call a function value with a list of arguments"""
        if fv[0] == "ref":
            fv = st.strip_refs(fv)
        if fv[0] == "closure":
            fn = self.prog.fns.get(fv[1])
            if fn is None:
                raise Unsupported("closure body " + fv[1])
            # does the body take self by ref?
            ty = self.prog.types[fn.locals[1]["ty"]]
            if ty["k"] == "ref":
                oid = st.fresh("c")
                st.heap[oid] = fv
                a0 = ("ref", (("h", oid), ()))
            else:
                a0 = fv
            return self.inline(st, fn, [a0] + list(args), t, cont)
        if fv[0] == "fn":
            path = fv[1]
            if path in self.prog.fns:
                return self.inline(st, self.prog.fns[path], list(args), t, cont)
            # tuple-variant constructors
            if path == "std::option::Option::Some":
                v = some(args[0])
                return cont(st, v) if cont else self.finish(st, t, v)
            raise Unsupported("fn value " + path)
        raise Unsupported("call of " + fv[0])
