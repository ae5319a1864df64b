"""Iteration over a B+ map: where it begins, and what one step answers."""
from ..interp import State, Unsupported, Bug, NONE, some, tup
from ..lin import V, C
from ..simple import start
from .bptree import BDom, BInterp, Lay, Op, key, entry, LEAF, NODE, MAP, RESULT, DL, DI, LEN, ok

ITER = "crate::bp_tree::map::BpMapIterMut"
NEXT = "crate::<bp_tree::map::BpMapIterMut<'a, T, U> as std::iter::Iterator>::next"


class Begin(Op):
    """the iterator begins at the first entry of the leftmost leaf"""

    def __init__(self, lay, deg2):
        super().__init__(lay, "iter_mut", "eq", deg2)

    def args(self, me):
        return [me]

    def check(self, d, o):
        st, v = o.state, o.value
        if v[0] != "agg" or v[1] != RESULT:
            raise Unsupported("result is " + v[0])
        if v[2] == 1:
            yield "B03", "an error is reported although every call succeeded"
            return
        it = v[3][0]
        fs = fields(self.lay.prog)
        leaf, index = it[3][fs["curr_node"]], it[3][fs["curr_index"]]
        if leaf[0] != "agg" or leaf[1] != LEAF:
            raise Unsupported("the iterator holds " + leaf[0])
        if index[0] != "int" or not d.zero(st, index[1]):
            yield "B03", "the iteration does not begin at the first entry of its leaf"
        nx = self.lay.get(LEAF, leaf, "next_leaf")
        if nx[0] != "nxt":
            yield "B03", "the iteration begins with a leaf whose successor is changed"
            return
        p = st.heap[nx[1][1]]
        if p[1] == ("r",):
            yield "B03", "the iteration begins past entries of the map"
        if any(q[0] == "page" and q[5] for q in st.heap.values()) and st.mem.get("root:track"):
            yield "B03", "starting an iteration writes a page"


def fields(prog):
    adt = prog.adts.get(ITER)
    if not adt:
        raise Unsupported("the iterator is gone")
    fs = {f["name"]: i for i, f in enumerate(adt["variants"][0]["fields"])}
    for n in ("curr_node", "curr_index"):
        if n not in fs:
            raise Unsupported("the iterator has no field " + n)
    return fs


class StepInterp(BInterp):
    def get_page(self, ip, st, args, t):
        if args[1] != ("pg", "nx"):
            raise Bug("B03", "the iteration reads a page that is not the next leaf")
        st.mem["read"] = True
        b, n = self.build(st, [(some(entry("kk")), C(1)), (some(entry("gt")), V(st.fresh("n")))], DL, NONE)
        return self.finish(st, t, ok(self.lay.node(LEAF, self.lay.make(LEAF, len=("int", n), entries=b, next_leaf=("nxt", ("pg", "nx"))))))

    def write_node(self, ip, st, args, t):
        raise Bug("B03", "an iteration writes a page")
    set_len = set_root_page = allocate_node = deallocate_node = write_node


class Step(Op):
    """one step answers the next entry of the leaf, of the next leaf at its end, or nothing at the end of the last"""

    def __init__(self, lay, where):
        super().__init__(lay, "next", "eq", False)
        self.path, self.where = NEXT, where

    def run(self):
        fn = self.lay.prog.fns.get(NEXT)
        if fn is None:
            raise Unsupported("%s is gone" % NEXT)
        d = BDom(self.lay, "eq", self.post)
        ip = self.ip = StepInterp(self.lay, d)
        st = State()
        st.add_ge(DL - 1)
        fs = fields(self.lay.prog)
        i = V(st.fresh("n"))
        st.add_ge(i)
        parts = [(NONE, i)] + ([(some(entry("kk")), C(1)), (some(entry("gt")), V(st.fresh("n")))] if self.where.startswith("within") else [])
        b, n = ip.build(st, parts, DL, NONE)
        nx = self.nx = {"next": some(("pg", "nx")), "within": some(("pg", "own"))}.get(self.where, NONE)
        leaf = self.lay.make(LEAF, len=("int", n), entries=b, next_leaf=nx)
        st.heap["file"] = ("opaque", "pager")
        vs = [("ref", (("h", "file"), ()))] * len(fs)
        vs[fs["curr_node"]], vs[fs["curr_index"]] = leaf, ("int", i)
        st.heap["it"] = ("agg", ITER, 0, tuple(vs))
        self.fs, self.i, self.unsupported = fs, i, []
        outs = ip.run(start(ip, fn, [("ref", (("h", "it"), ()))], st))
        self.unsupported = sorted(set(ip.unsupported))
        for o in outs:
            self.paths += 1
            if o.kind in ("bug", "panic"):
                self.probs.append(("B03", o.msg if o.kind == "bug" else "may panic: " + o.msg, o.state.trace[-12:], o.where))
                continue
            try:
                for m in self.answer(d, o):
                    self.probs.append(("B03", m, o.state.trace[-12:], ""))
            except Unsupported as e:
                self.unsupported.append(str(e))
        return self

    def answer(self, d, o):
        st, v = o.state, o.value
        it = st.heap["it"]
        leaf, index = it[3][self.fs["curr_node"]], it[3][self.fs["curr_index"]]
        if self.where == "end":
            if v != NONE:
                yield "it answers an entry past the last one"
            return
        if v == NONE:
            yield "it ends although there are entries left"
            return
        want = some(ok(tup(key("kk"), ("val", "old"))))
        if self.strip(v) != self.strip(want):
            yield "it does not answer the next entry"
        at = C(1) if self.where == "next" else self.i + 1
        if index[0] != "int" or not d.zero(st, index[1] - at):
            yield "it does not move past the entry it answers, or moves too far"
        if leaf[0] != "agg" or self.lay.get(LEAF, leaf, "next_leaf") != (("nxt", ("pg", "nx")) if self.where == "next" else self.nx):
            yield "it does not keep the leaf it is in"


def results(prog):
    out = []
    for name, mk in [("iter_mut:%s" % ("degree 2" if d else "any degree"), (lambda d: lambda lay: Begin(lay, d))(d)) for d in (False, True)] + [("next:" + w, (lambda w: lambda lay: Step(lay, w))(w)) for w in ("within", "within the last", "next", "end")]:
        try:
            r = mk(Lay(prog)).run()
            out.append(("iter:" + name, r.path, r.probs, r.paths, r.ip.steps, r.unsupported))
        except Unsupported as e:
            out.append(("iter:" + name, NEXT, [], 0, 0, [str(e)]))
        except Exception as e:
            out.append(("iter:" + name, NEXT, [], 0, 0, ["%s: %s" % (type(e).__name__, e)]))
    return out


if __name__ == "__main__":
    import sys
    from .. import mir
    for r in results(mir.load(sys.argv[1])):
        print(r[0], "paths", r[3], sorted({(p[0], p[1]) for p in r[2]}), r[5])
