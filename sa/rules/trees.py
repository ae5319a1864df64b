"""Verification of the tree implementations with the shape analysis: contracts against bodies, public operations against
their specification as operations on the ordered content."""
import sys, time
from ..interp import (Interp, State, Frame, Outcome, Unsupported, Infeasible, NeedOpen, OPTION, NONE, MOVED, UNIT, TRUE, FALSE, some, tup, integer)
from ..lin import C, V
from ..trees import Dom, Family, ENTRY
from ..contracts import Contracts, is_none, keyname
from ..stdmodels import deep

sys.setrecursionlimit(20000)

FAMS = {
    "avl": ("crate::avl_tree", "crate::avl_tree::node::Node", True, "Avl"),
    "rb": ("crate::red_black_tree", "crate::red_black_tree::node::Node", True, "RedBlack"),
    "splay": ("crate::splay_tree", "crate::splay_tree::node::Node", True, "Splay"),
    "treap": ("crate::treap", "crate::treap::node::Node", True, "Treap"),
    "itreap": ("crate::treap", "crate::treap::node::ImplicitNode", False, "Treap"),
}


class Result:
    def __init__(self, fn, what):
        self.fn, self.what = fn, what
        self.problems = []   # (category, text, trace)
        self.unsupported = None
        self.paths = 0
        self.steps = 0
        self.wall = 0


class Ver:
    def __init__(self, prog, famname):
        self.prog = prog
        mod, node, keyed, self.prefix = FAMS[famname]
        self.fam = Family(prog, famname, mod, node, keyed)
        self.name = famname
        self.results = []
        self.nodety = None

    # ---------- running ----------
    def interp(self):
        dom = Dom(self.fam)
        con = Contracts(dom)
        self.dom, self.con = dom, con
        ip = Interp(self.prog, dom, con.table())
        return ip

    def verify(self, path, what, setup, check, unit=False):
        fn = self.prog.fns.get(path)
        res = Result(path, what)
        self.results.append(res)
        if fn is None:
            res.unsupported = "function not found"
            return res
        t0 = time.time()
        try:
            ip = self.interp()
            starts = setup(ip)
            for st, args in starts:
                st.mem["unit"] = unit
                if len(args) != fn.argc:
                    raise Unsupported("unexpected number of parameters")
                fr = Frame("f0", fn, 0, {}, None, None)
                for i, a in enumerate(args):
                    fr.locals[i + 1] = a
                st.frames.append(fr)
                for o in ip.run(st):
                    res.paths += 1
                    if o.state.taint:
                        raise Unsupported("path depends on an unmodelled value: %s" % (o.state.taint[0],))
                    for c in self.judge(check, o):
                        for cat, text in c[1]:
                            res.problems.append((cat, text, c[0].trace))
            res.steps = ip.steps
        except NeedOpen:
            res.unsupported = "folded node read in a check"
        except Infeasible:
            res.unsupported = "internal: infeasible state escaped"
        except Unsupported as e:
            res.unsupported = str(e)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
            import traceback
            res.unsupported = "unexpected shape: %s: %s | %s" % (type(e).__name__, e, traceback.format_exc(limit=-3).replace("\n", " / ")[-500:])
        res.wall = time.time() - t0
        return res

    def judge(self, check, o):
        """list of (state, problems) for one outcome"""
        st = o.state
        base = list(st.mem.get("probs", ()))
        if o.kind == "panic":
            r = check(o)
            if r is None:
                return [(st, base + [("panic", "%s at %s" % (o.msg, o.where))])]
            return [(s, base + p) for s, p in r]
        return [(s, list(s.mem.get("probs", ())) + p) for s, p in check(o)]

    # ---------- initial states ----------
    def fresh_tree(self, st, info=None):
        t = st.fresh("t")
        st.info[t] = dict(info or {})
        return t

    def cell(self, st, v):
        h = st.fresh("c")
        st.heap[h] = v
        return ("ref", (("h", h), ()))

    def keyarg(self, k="k0"):
        return ("ref", (("const", ("key", k)), ()))

    def node(self, st, key, val):
        fam = self.fam
        fs = [None] * len(fam.fields)
        for i, n in enumerate(fam.fields):
            if i in (fam.L, fam.R):
                fs[i] = NONE
            elif i == fam.E:
                fs[i] = ("agg", ENTRY, 0, (("key", key), val)) if fam.keyed else val
            elif n in ("height", "len"):
                fs[i] = integer(1)
            elif n == "color":
                fs[i] = ("agg", fam.coladt, fam.colors["Red"], ())
            elif n == "priority":
                fs[i] = ("prio", st.fresh("p"))
        return ("agg", fam.node, 0, tuple(fs))

    # ---------- checks ----------
    def W0(self, s, n="W0"):
        return s.ghost[n]

    def tree_checks(self, s, v, want, post=None):
        """content, order and structure of the tree value v; post(state, measure) -> problems"""
        out = []
        dom = self.dom
        got = dom.word(s, v)
        probs = []
        p = dom.same_content(s, got, want, not self.fam.keyed)
        if p:
            probs.append(("content", p))
        if self.fam.keyed:
            p = dom.sorted_problem(s, got)
            if p:
                probs.append(("order", "keys out of order: " + p))
        for s2, m, mp in dom.measure(s, v):
            pp = probs + list(mp)
            if post:
                pp = pp + post(s2, m)
            out.append((s2, pp))
        return out

    def ret_entry(self, s, v):
        """(key name, value name) of a returned item"""
        v = deep(s, v)
        if v[0] == "agg" and v[1] in ("tuple", ENTRY):
            if not v[3]:
                return (None, "unit")
            a = [deep(s, x) for x in v[3]]
            k = a[0][1] if a[0][0] == "key" else None
            x = a[1]
            return (k, "unit" if x == UNIT else x[1] if x[0] == "val" else None)
        if v[0] == "key":
            return (v[1], None)
        if v[0] == "val":
            return (None, v[1])
        raise Unsupported("returned item is %s" % v[0])

    def matches(self, s, v, at, need=("k", "v")):
        k, x = self.ret_entry(s, v)
        if "k" in need and self.fam.keyed and k != at[1]:
            return False
        if "v" in need and x != at[2]:
            return False
        return True

    def ret_option(self, s, v, at, need, what="the answer"):
        """v must be None / Some(item) according to at"""
        if v[0] == "tree" or v[0] == "top":
            raise Unsupported("returned option is %s" % v[0])
        if at is None:
            return [] if is_none(v) else [("return", "%s is Some although nothing matches" % what)]
        if is_none(v):
            return [("return", "%s is None although %s is present" % (what, self.dom.show(at)))]
        x = v[3][0]
        if not self.matches(s, x, at, need):
            return [("return", "%s is %s instead of %s" % (what, self.ret_entry(s, x), self.dom.show(at)))]
        return []


# ------------------------------------------------------------------ contracts against bodies
def avl_rel(lo, hi):
    def mk(m0):
        def post(s, m):
            d = s.red(m - m0)
            r = []
            if not s.ge(d - lo):
                r.append(("height", "the subtree's height may change by %s, less than %s" % (d, lo)))
            if not s.ge(-d + hi):
                r.append(("height", "the subtree's height may change by %s, more than %s" % (d, hi)))
            return r
        return post
    return mk


def verify_contracts(V_):
    v = V_
    fam = v.fam
    name = v.name
    m = fam.mod
    base = m + ("::implicit_tree::" if name == "itreap" else "::tree::")

    def pre_infos(op):
        """structural variants of the argument tree"""
        if name == "rb":
            if op == "insert":
                return [{"color": "R"}, {"color": "B"}]
            if op in ("remove", "remove_min"):
                return [{"color": "R"}, {"color": "B", "lr": True}] + ([{"color": "B", "_empty": True}] if op == "remove" else [])
            return [{"color": "B"}, {"color": "R"}]
        return [{}]

    def setup1(op, mkargs):
        def f(ip):
            out = []
            for info in pre_infos(op):
                st = State()
                st.mem["unit"] = False
                info = dict(info)
                empty = info.pop("_empty", False)
                t = v.fresh_tree(st, info)
                if empty:
                    v.dom.emp(st, t)
                if info.get("color") == "R" or info.get("lr"):
                    v.dom.nonemp(st, t)
                st.ghost["W0"] = (t,)
                st.mem["t0"] = t
                st.mem["info0"] = info
                for more, s in mkargs(st, t):
                    out.append((s, more))
            return out
        return f

    def post_for(op):
        def post(s, mm):
            t = s.mem["t0"]
            if name == "avl":
                h0 = s.red(V("h" + t))
                return avl_rel(*{"insert": (0, 1), "remove": (-1, 0), "remove_min": (-1, 0)}[op])(h0)(s, mm)
            if name == "rb":
                r = [("color", "a red link leans right")] if mm.get("rlean") else []
                d = s.red(mm["bh"] - V("b" + t))
                if not (s.ge(d) and s.ge(-d)):
                    r.append(("bh", "the black height of the subtree changes by %s" % d))
                c0 = s.mem["info0"]["color"]
                if op == "insert":
                    if c0 == "B" and mm["rr"]:
                        r.append(("color", "insertion below a black root leaves two consecutive red links"))
                    if c0 == "R" and mm["color"] != "R":
                        r.append(("color", "insertion below a red root turned it black"))
                else:
                    if mm["rr"]:
                        r.append(("color", "removal leaves two consecutive red links"))
                    if c0 == "B" and mm["color"] == "R":
                        r.append(("color", "removal below a black root turned it red"))
                return r
            return []
        return post

    def prio_post(st, extra):
        return []

    # --- insert
    if name != "itreap":
        def mk_insert(st, t):
            n = v.node(st, "k0", ("val", "v0"))
            c = v.cell(st, ("tree", t))
            st.mem["cell"] = c
            return [([c, n], st)]

        def chk_insert(o):
            if o.kind == "panic":
                return None
            out = []
            at = ("e", "k0", "v0")
            s0 = o.state
            tv = s0.read(s0.deref(s0.mem["cell"]))
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                for s2, p in v.tree_checks(s, tv, lo + (at,) + hi, post_for("insert")):
                    out.append((s2, p + v.ret_option(s2, o.value, e, ("k", "v"), "the replaced pair") + dom_post(s2, tv)))
            return out

        # treaps: what dominated the arguments dominates the result
        def dom_post(s, tv):
            if name not in ("treap", "itreap"):
                return []
            q = s.mem.get("qdom")
            if q is None:
                return []
            for s2, mm, _ in v.dom.measure(s, tv):
                if mm[1] is not None and not (q, mm[1]) in s2.dom or mm[2] is not None and not ((q, mm[2]) in s2.dom or v.dom.prov_empty(s2, mm[2])):
                    return [("heap", "the resulting root's priority may exceed every priority given to the call")]
            return []

        def with_q(mk, syms):
            """an outer priority that dominates everything given to the call"""
            def f(st, t):
                r = []
                for args, s in mk(st, t):
                    if name in ("treap", "itreap"):
                        s.mem["qdom"] = "pq"
                        add = {("pq", x) for x in s.info}
                        for a in args:
                            if a[0] == "agg" and a[1] == fam.node:
                                add.add(("pq", a[3][fam.idx["priority"]][1]))
                        s.dom = s.dom | add
                    r.append((args, s))
                return r
            return f

        rec = v.interp().recursive

        if rec(base + "insert"):
            v.verify(base + "insert", "contract", setup1("insert", with_q(mk_insert, None)), chk_insert)

        def mk_key(st, t):
            c = v.cell(st, ("tree", t))
            st.mem["cell"] = c
            return [([c, v.keyarg()], st)]

        def mk_remove(st, t):
            out = mk_key(st, t)
            if name == "rb" and st.info[t].get("color") == "R":
                # black root whose right child alone is red; the key is not below the root's
                s = State()
                s.mem["unit"] = False
                t1 = v.fresh_tree(s, {"color": "B", "rl": True})
                v.dom.nonemp(s, t1)
                s.ghost["W0"] = (t1,)
                s.mem["t0"] = t1
                s.mem["info0"] = {"color": "B"}
                for s1, nd in v.dom.open(s, t1):
                    k = nd[3][fam.E][3][0][1]
                    for eq in (False, True):
                        s2 = s1.copy()
                        s2.add_lt([(k, "k0")]) if not eq else s2.unify_keys(k, "k0")
                        hid = s2.fresh("x")
                        s2.heap[hid] = nd
                        c = v.cell(s2, some(("box", hid)))
                        s2.mem["cell"] = c
                        out.append(([c, v.keyarg()], s2))
            return out

        def chk_remove(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            tv = s0.read(s0.deref(s0.mem["cell"]))
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                for s2, p in v.tree_checks(s, tv, lo + hi, post_for("remove")):
                    out.append((s2, p + v.ret_option(s2, o.value, e, ("k", "v"), "the removed pair") + dom_post(s2, tv)))
            return out

        if rec(base + "remove"):
            v.verify(base + "remove", "contract", setup1("remove", with_q(mk_remove, None)), chk_remove)

        def chk_find(kind):
            def f(o):
                if o.kind == "panic":
                    return None
                return find_check(v, o.state, o.value, kind, ("k", "v"))
            return f

        for n in ("get", "get_mut", "floor", "ceil"):
            if rec(base + n) or rec(base + n + "::{closure#0}"):
                v.verify(base + n, "contract", setup1(n, mk_key), chk_find(n))

        if name in ("avl", "rb") and rec(base + "remove_min"):
            def mk_rm(st, t):
                c = v.cell(st, ("tree", t))
                st.mem["cell"] = c
                v.dom.nonemp(st, t)
                return [([c], st)]

            def chk_rm(o):
                if o.kind == "panic":
                    return None
                out = []
                s0 = o.state
                tv = s0.read(s0.deref(s0.mem["cell"]))
                nv = deep(s0, o.value)
                if nv[0] != "agg" or nv[1] != fam.node:
                    raise Unsupported("remove_min returns %s" % nv[0])
                e = v.dom.atom_of(nv[3][fam.E])
                probs = []
                w = v.dom.expand(s0, v.W0(s0))
                before = []
                for it in w:
                    if it == e:
                        break
                    before.append(it)
                if e not in w:
                    probs.append(("return", "the returned node is not from the tree"))
                elif any(not v.dom.prov_empty(s0, x) for x in before):
                    probs.append(("return", "the returned node is not the minimum: %s may lie below it" % v.dom.shw(before)))
                kids = v.dom.word(s0, nv[3][fam.L]) + v.dom.word(s0, nv[3][fam.R])
                if any(not v.dom.prov_empty(s0, x) for x in v.dom.expand(s0, kids)):
                    probs.append(("content", "the returned node still holds %s" % v.dom.shw(kids)))
                want = tuple(x for x in w if x != e)
                for s2, p in v.tree_checks(s0, tv, want, post_for("remove_min")):
                    out.append((s2, p + probs))
                return out

            v.verify(base + "remove_min", "contract", setup1("remove_min", mk_rm), chk_rm)

    if name in ("treap", "itreap"):
        treap_contracts(v, base)


def find_check(v, s0, ret, kind, need):
    """answer of get/floor/ceil/min/max against the content"""
    dom = v.dom
    out = []
    if kind in ("get", "get_mut"):
        for s, lo, e, hi in dom.split_word(s0, v.W0(s0), "k0"):
            out.append((s, v.ret_option(s, ret, e, need)))
        return out
    w = dom.expand(s0, v.W0(s0))
    k = "k0"
    if is_none(ret):
        bad = []
        for it in w:
            if dom.prov_empty(s0, it):
                continue
            if kind == "floor" and dom.klt(s0, k, it) or kind == "ceil" and dom.ltk(s0, it, k):
                continue
            bad.append(it)
        if bad:
            return [(s0, [("return", "%s answers None although %s may qualify" % (kind, dom.shw(bad)))])]
        return [(s0, [])]
    if ret[0] != "agg":
        raise Unsupported("answer is %s" % ret[0])
    kn, vn = v.ret_entry(s0, ret[3][0])
    at = [i for i, it in enumerate(w) if isinstance(it, tuple) and it[0] == "e" and ("k" not in need or it[1] == kn) and ("v" not in need or it[2] == vn)]
    if len(at) != 1:
        return [(s0, [("return", "%s answers (%s, %s), which is not an entry of the content" % (kind, kn, vn))])]
    i = at[0]
    e = w[i]
    probs = []

    def possible(items):
        return [x for x in items if not dom.prov_empty(s0, x)]

    if kind == "min":
        b = possible(w[:i])
        if b:
            probs.append(("return", "min answers %s although %s may be smaller" % (dom.show(e), dom.shw(b))))
    elif kind == "max":
        b = possible(w[i + 1:])
        if b:
            probs.append(("return", "max answers %s although %s may be larger" % (dom.show(e), dom.shw(b))))
    elif kind == "floor":
        if not (s0.rep(e[1]) == s0.rep(k) or dom.ltk(s0, e, k)):
            probs.append(("return", "floor answers %s, not known to be at most the argument" % dom.show(e)))
        b = [x for x in possible(w[i + 1:]) if not dom.klt(s0, k, x)]
        if b:
            probs.append(("return", "floor answers %s although %s may be closer" % (dom.show(e), dom.shw(b))))
    elif kind == "ceil":
        if not (s0.rep(e[1]) == s0.rep(k) or dom.klt(s0, k, e)):
            probs.append(("return", "ceil answers %s, not known to be at least the argument" % dom.show(e)))
        b = [x for x in possible(w[:i]) if not dom.ltk(s0, x, k)]
        if b:
            probs.append(("return", "ceil answers %s although %s may be closer" % (dom.show(e), dom.shw(b))))
    return [(s0, probs)]


def dom_check(v, s, tv):
    """what dominated every priority given to the call dominates the resulting root"""
    q = "pq"
    for s2, mm, _ in v.dom.measure(s, tv):
        if mm[1] is not None and not (q, mm[1]) in s2.dom or mm[2] is not None and not ((q, mm[2]) in s2.dom or v.dom.prov_empty(s2, mm[2])):
            return [("heap", "the resulting root's priority may exceed every priority given to the call")]
    return []


def treap_contracts(v, base):
    fam, dom = v.fam, None
    rec = v.interp().recursive

    def start(two=False, ordered=False):
        st = State()
        l = v.fresh_tree(st)
        st.ghost["W0"] = (l,)
        r = None
        if two:
            r = v.fresh_tree(st)
            st.ghost["W1"] = (r,)
            if ordered and fam.keyed:
                st.add_lt([(l, r)])
        st.dom = frozenset(("pq", x) for x in st.info)
        return st, l, r

    # merge
    def setup_merge(ip):
        st, l, r = start(True, True)
        c = v.cell(st, ("tree", l))
        st.mem["cell"] = c
        return [(st, [c, ("tree", r)])]

    def chk_merge(o):
        if o.kind == "panic":
            return None
        s0 = o.state
        tv = s0.read(s0.deref(s0.mem["cell"]))
        return [(s, p + dom_check(v, s, tv)) for s, p in v.tree_checks(s0, tv, v.W0(s0) + v.W0(s0, "W1"))]

    if rec(base + "merge"):
        v.verify(base + "merge", "contract", setup_merge, chk_merge)

    if fam.keyed:
        def setup_split(ip):
            st, l, _ = start()
            c = v.cell(st, ("tree", l))
            st.mem["cell"] = c
            return [(st, [c, v.keyarg()])]

        def chk_split(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            tv = s0.read(s0.deref(s0.mem["cell"]))
            mid, right = o.value[3]
            for s, lo, e, hi in v.dom.split_word(s0, v.W0(s0), "k0"):
                for s2, p in v.tree_checks(s, tv, lo):
                    for s3, p2 in v.tree_checks(s2, right, hi):
                        p = p + p2 + dom_check(v, s3, tv) + dom_check(v, s3, right)
                        mv = mid
                        if mv[0] != "agg":
                            raise Unsupported("split returns %s" % mv[0])
                        if e is None:
                            if not is_none(mv):
                                p = p + [("return", "split hands out a node although the key is absent")]
                            out.append((s3, p))
                            continue
                        if is_none(mv):
                            out.append((s3, p + [("return", "split hands out no node although the key is present")]))
                            continue
                        for s4, p3 in v.tree_checks(s3, mv, (e,)):
                            out.append((s4, p + p3 + dom_check(v, s4, mv)))
            return out

        if rec(base + "split"):
            v.verify(base + "split", "contract", setup_split, chk_split)

        def setop(fn, op, flags):
            def setup(ip):
                out = []
                for sw in (False, True):
                    st, l, r = start(True)
                    st.mem["sw"] = sw
                    out.append((st, [("tree", l), ("tree", r), ("bool", sw)] + flags))
                return out

            def chk(o):
                if o.kind == "panic":
                    return None
                s0 = o.state
                a, b = v.W0(s0), v.W0(s0, "W1")
                if s0.mem["sw"]:
                    a, b = b, a
                return [(s, p + dom_check(v, s, o.value)) for s, p in v.tree_checks(s0, o.value, (("op", op, a, b),))]

            if rec(base + fn):
                v.verify(base + fn, "contract:" + op, setup, chk)

        setop("union", "union", [])
        setop("intersection", "intersection", [])
        setop("difference", "difference", [FALSE])
        setop("difference", "symmetric_difference", [TRUE])
    else:
        def setup_isplit(ip):
            out = []
            for incl in (False, True):
                st, l, _ = start()
                c = v.cell(st, ("tree", l))
                st.mem["cell"] = c
                st.mem["incl"] = incl
                out.append((st, [c, ("int", V("i0")), ("bool", incl)]))
            return out

        def chk_isplit(o):
            if o.kind == "panic":
                return None
            out = []
            s0 = o.state
            tv = s0.read(s0.deref(s0.mem["cell"]))
            m = V("i0") - 1 if s0.mem["incl"] else V("i0")
            for s, lo, hi in v.con.cut_at(s0, v.dom.norm_seq(s0, v.W0(s0)), m):
                for s2, p in v.tree_checks(s, tv, lo):
                    for s3, p2 in v.tree_checks(s2, o.value, hi):
                        out.append((s3, p + p2 + dom_check(v, s3, tv) + dom_check(v, s3, o.value)))
            return out

        if rec(base + "split"):
            v.verify(base + "split", "contract", setup_isplit, chk_isplit)

        def setup_idx(ip):
            st, l, _ = start()
            c = v.cell(st, ("tree", l))
            st.mem["cell"] = c
            return [(st, [c, ("int", V("i0"))])]

        def chk_iremove(o):
            return index_remove_check(v, o, V("i0"), lambda s: s.read(s.deref(s.mem["cell"])), True)

        def chk_iget(o):
            if o.kind == "panic":
                return None
            return index_get_check(v, o.state, o.value, V("i0"))

        if rec(base + "remove"):
            v.verify(base + "remove", "contract", setup_idx, chk_iremove)
        for n in ("get", "get_mut"):
            if rec(base + n) or rec(base + n + "::{closure#0}"):
                v.verify(base + n, "contract", setup_idx, chk_iget)


def index_remove_check(v, o, idx, tree_of, domc=False):
    s0 = o.state
    out = []
    for s, lo, e, hi in v.con.at_index(s0, v.dom.norm_seq(s0, v.W0(s0)), idx):
        if o.kind == "panic":
            out.append((s, [] if e is None else [("panic", "%s although the position exists, at %s" % (o.msg, o.where))]))
            continue
        if e is None:
            out.append((s, [("return", "an out-of-range position is answered instead of rejected")]))
            continue
        tv = tree_of(s)
        for s2, p in v.tree_checks(s, tv, lo + hi):
            p = p + ([] if v.matches(s2, o.value, e, ("v",)) else [("return", "removal returns %s instead of %s" % (v.ret_entry(s2, o.value), v.dom.show(e)))])
            out.append((s2, p + (dom_check(v, s2, tv) if domc else [])))
    return out


def index_get_check(v, s0, ret, idx):
    out = []
    for s, lo, e, hi in v.con.at_index(s0, v.dom.norm_seq(s0, v.W0(s0)), idx):
        out.append((s, v.ret_option(s, ret, e, ("v",), "the element")))
    return out


_cache = {}


def analyse(prog, famname):
    key = (id(prog), famname)
    if key not in _cache:
        v = Ver(prog, famname)
        verify_contracts(v)
        _cache[key] = v
    return _cache[key]


if __name__ == "__main__":
    from .. import mir
    prog = mir.load(sys.argv[1])
    for f in sys.argv[2:]:
        v = analyse(prog, f)
        for r in v.results:
            print("%-60s %-10s paths=%d steps=%d %.1fs %s" % (r.fn, r.what, r.paths, r.steps, r.wall, "UNSUPPORTED " + r.unsupported if r.unsupported else ""))
            for p in r.problems[:6]:
                print("     ", p[0], p[1])
                print("          ", "; ".join(p[2]))
