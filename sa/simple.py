"""A plain abstract-heap domain: values are tuples, symbols are letters followed by digits. Loop heads
drop what no live local reaches and merge states equal up to renaming of symbols."""
import re
from .interp import Interp, State, Outcome, Unsupported, Infeasible, Bug, Frame, MOVED, UNIT
from .lin import Lin, V

SYM = re.compile(r"^[a-z]+\d+$")


class Dom:
    fixed = ()          # symbols that keep their identity
    fam = None

    def on_drop(self, st, v):
        pass

    def roots(self, st):
        return [v for k, v in sorted(st.mem.items(), key=str) if isinstance(k, str) and k.startswith("root:")]

    def at_head(self, st):
        """hook: normalise the state at a loop head"""

    def materialize(self, st, addr, v):
        raise Unsupported("materialise " + v[0])

    def open_node(self, st, hid):
        raise Unsupported("open node")

    def cmp_prio(self, st, p, q):
        raise Unsupported("priority")

    def close_context(self, st, addr, v):
        raise Unsupported("context")

    # ---------------------------------------------------------------- loop heads
    def live(self, st, drops=True):
        n = len(st.frames)
        for i, f in enumerate(st.frames):
            li = self.interp.live_in(f.fn, drops)
            if i == n - 1:
                ls = set(li[f.bb])
            else:
                t = f.fn.blocks[f.bb]["t"]
                ls = set()
                for b in f.fn.succs(f.bb):
                    ls |= li[b]
                if t["k"] == "call" and t["d"]["p"]:
                    ls.add(t["d"]["l"])
            yield f, ls

    def heap_refs(self, v, out):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "h" and isinstance(v[1], str):
                out.append(("h", v[1]))
                return
            if len(v) == 3 and v[0] == "l" and isinstance(v[1], str):
                out.append(v)
                return
            if v and v[0] in ("box", "boxraw", "owned", "sh", "ptr") and len(v) >= 2 and isinstance(v[1], str):
                out.append(("h", v[1]))
            for x in v:
                self.heap_refs(x, out)

    def fold(self, st):
        self.at_head(st)
        seen = set()
        work = []
        for f, ls in self.live(st):
            for l in ls:
                work.append(("l", f.fid, l))
        for v in self.roots(st):
            self.heap_refs(v, work)
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            if r[0] == "l":
                v = None
                for f in st.frames:
                    if f.fid == r[1]:
                        v = f.locals.get(r[2])
            else:
                v = st.heap.get(r[1])
            if v is None or v[0] == "moved":
                continue
            self.heap_refs(v, work)
        for f in st.frames:
            for l in list(f.locals):
                if ("l", f.fid, l) not in seen:
                    del f.locals[l]
        st.heap = {h: v for h, v in st.heap.items() if ("h", h) in seen}
        st.trace = st.trace[-12:]
        return st

    def canon(self, st):
        names = {x: x for x in self.fixed}
        hq = []

        def nm(x):
            if x not in names:
                m = re.match(r"[a-z]+", x)
                names[x] = "%s#%d" % (m.group(0), len(names))
                if x in st.heap:
                    hq.append(x)
            return names[x]

        fids = {f.fid: "F%d" % i for i, f in enumerate(st.frames)}

        def lin(l):
            l = st.red(l)
            return ("lin", tuple((nm(v) if SYM.match(v) else v, c) for v, c in l.t), l.c)

        def val(v):
            if isinstance(v, str):
                if v in fids:
                    return fids[v]
                return nm(v) if SYM.match(v) else v
            if isinstance(v, Lin):
                return lin(v)
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            if isinstance(v, (dict, list, set, frozenset)):
                raise Unsupported("state holds a %s" % type(v).__name__)
            return v

        out = []
        for f in st.frames:
            out.append((f.fn.path, f.bb, tuple((l, val(f.locals[l])) for l in sorted(f.locals) if f.locals[l] != MOVED), val(f.dest) if f.dest else None))
        for k, v in sorted(st.mem.items(), key=lambda x: str(x[0])):
            if isinstance(k, str):
                out.append((k, val(v)))
        for h in [h for h in st.heap if not SYM.match(h)]:
            out.append((h, val(st.heap[h])))
        i = 0
        while i < len(hq):
            out.append((hq[i] and names[hq[i]], val(st.heap[hq[i]])))
            i += 1
        facts = set()
        for k, v in list(st.mem.items()):
            if isinstance(k, tuple) and k[0] != "visits":
                if all(x in names for x in k[1:] if isinstance(x, str) and SYM.match(x)):
                    facts.add((tuple(names.get(x, x) for x in k), val(v)))
                else:
                    del st.mem[k]
        for a, b in st.lt:
            if a in names and b in names:
                facts.add(("lt", names[a], names[b]))
        for k in st.eqk:
            if k in names:
                facts.add(("eqk", names[k], nm(st.rep(k))))
        nums = []
        for k, e in st.eqs.items():
            l = V(k) - e
            nums += [l, -l]
        nums += list(st.lin)
        nums = [("lin", tuple((names.get(v, v), c) for v, c in l.t), l.c) for l in nums if all(v in names or not SYM.match(v) for v in l.syms())]
        inv = {n: x for x, n in names.items()}
        return (tuple(out), frozenset(facts)), frozenset(nums), inv

    soften = False

    def weaken(self, st, stored, inv):
        kept, all_ = [], True
        for f in stored:
            l = Lin(tuple(sorted((inv.get(v, v), c) for v, c in f[1])), f[2])
            if st.ge(l):
                kept.append((f, l))
                continue
            all_ = False
            if self.soften:
                for d in range(l.c + 1, 3):       # a weaker bound that both have
                    if st.ge(l + (d - l.c)):
                        kept.append(((f[0], f[1], d), l + (d - l.c)))
                        break
        if all_:
            return None
        st.eqs, st.lin = {}, ()
        ls = [l for _, l in kept]
        for l in ls:
            if -l in ls:
                st.add_eq(l)
        for l in ls:
            if -l not in ls:
                st.add_ge(l)
        return frozenset(f for f, _ in kept)


def start(ip, fn, args, st=None):
    st = st or State()
    st.n += 1
    fr = Frame("f%d" % st.n, fn, 0, {}, None, None)
    for i, a in enumerate(args):
        fr.locals[i + 1] = a
    st.frames.append(fr)
    return st
