"""Error discipline of the persistent collections: a path-sensitive taint analysis of every function. Each call that
can fail opens an obligation; it closes when the success branch is taken, and a path that returns while it is open must
carry the error in its return value."""
import re

STORAGE = re.compile(r"std::io::Error|bincode::|lsm_tree::Error|bp_tree::pager::Error|bp_tree::Error")
# results turned into something that cannot report the failure
LOSSY = re.compile(r"^std::(result::Result|option::Option)::<.*>::(ok|is_ok|is_err|is_ok_and|is_err_and|unwrap_or|unwrap_or_default|unwrap_or_else|map_or|map_or_else|is_some|is_none|is_some_and)$")
ABORT = re.compile(r"::(unwrap|expect|unwrap_err|expect_err)$")
# iterator consumers that throw items away without looking at them
EATERS = {"count", "last", "nth", "skip", "skip_while", "step_by", "flatten", "max", "min", "advance_by"}
PARTIAL = {"std::io::Write::write": "write", "std::io::Read::read": "read", "std::io::Write::write_vectored": "write"}


def outcome(s):
    """the type of one attempt: a result, or an optional result as iterators give it"""
    return bool(re.match(r"(std::option::Option<)*std::result::Result<", s)) and bool(STORAGE.search(s))


def fallible(s):
    return "std::result::Result<" in s and bool(STORAGE.search(s))


class Analysis:
    def __init__(self, prog, fn, background):
        self.prog, self.fn, self.background = prog, fn, background
        self.bad = []
        self.calls = 0
        self.states = 0
        self.err = None
        self.eof_index = 37
        for v in (prog.adts.get("std::io::ErrorKind") or {}).get("variants", []) if isinstance(prog.adts, dict) else []:
            if v.get("name") == "UnexpectedEof":
                self.eof_index = v.get("discr", v.get("idx", 37))
        self.eof = self.eof_locals()
        self._live = None

    def eof_locals(self):
        """locals that hold ErrorKind::UnexpectedEof or a reference to it"""
        r = set()
        defs = {}
        for b in self.fn.blocks:
            for st in b["s"]:
                if st["k"] == "assign" and not st["p"]["p"]:
                    defs.setdefault(st["p"]["l"], []).append(st["r"])
        change = True
        while change:
            change = False
            for l, ds in defs.items():
                if l in r or len(ds) != 1:
                    continue
                d = ds[0]
                ok = self.is_eof(d)
                if not ok and d["k"] == "ref" and d["p"]["l"] in r:
                    ok = True
                if not ok and d["k"] == "use" and d["o"]["k"] in ("copy", "move") and d["o"]["p"]["l"] in r:
                    ok = True
                if ok:
                    r.add(l)
                    change = True
        return r

    def is_eof(self, d):
        if d["k"] == "agg" and d.get("path") == "std::io::ErrorKind":
            return d.get("vname") == "UnexpectedEof"
        if d["k"] == "use" and d["o"]["k"] == "const" and "promoted" in d["o"]:
            own = self.prog.fns.get(d["o"].get("def"))
            if own:
                return any(self.is_eof(st["r"]) for b in own.d["promoted"][d["o"]["promoted"]]["blocks"] for st in b["s"] if st["k"] == "assign" and st["r"]["k"] == "agg")
        return False

    def live_in(self, bb):
        """locals whose current value may still be read when the block is entered (drops do not read)"""
        if self._live is None:
            fn = self.fn
            use, kill = [], []
            for b in fn.blocks:
                u, k = set(), set()

                def rd(o):
                    if isinstance(o, dict) and o.get("k") in ("copy", "move"):
                        for l in [o["p"]["l"]] + [e["l"] for e in o["p"]["p"] if e["k"] == "index" and "l" in e]:
                            if l not in k:
                                u.add(l)

                def pl(p):
                    rd({"k": "copy", "p": p})
                for st in b["s"]:
                    if st["k"] != "assign":
                        continue
                    r = st["r"]
                    for key in ("o", "l", "r"):
                        rd(r.get(key))
                    for o in r.get("ops", []):
                        rd(o)
                    if isinstance(r.get("p"), dict):
                        pl(r["p"])
                    if st["p"]["p"]:
                        pl(st["p"])
                    else:
                        k.add(st["p"]["l"])
                t = b["t"]
                if t["k"] == "call":
                    for a in t["args"]:
                        rd(a)
                    if not t["d"]["p"]:
                        k.add(t["d"]["l"])
                    else:
                        pl(t["d"])
                elif t["k"] == "switch":
                    rd(t["d"])
                elif t["k"] == "return" and 0 not in k:
                    u.add(0)
                use.append(u)
                kill.append(k)
            live = [set() for _ in fn.blocks]
            change = True
            while change:
                change = False
                for i in range(len(fn.blocks) - 1, -1, -1):
                    n = set(use[i])
                    for x in fn.succs(i):
                        n |= live[x] - kill[i]
                    if n != live[i]:
                        live[i] = n
                        change = True
            self._live = live
        return self._live[bb]

    def ty(self, l):
        return self.prog.types[self.fn.locals[l]["ty"]]

    def taint(self, env, place):
        base = env.get(place["l"], frozenset())
        if not base:
            return base
        for e in place["p"]:
            if e["k"] == "downcast" and e.get("name") in ("Ok", "Continue"):
                return frozenset()
        return base

    def op(self, env, o):
        if o["k"] in ("copy", "move"):
            return self.taint(env, o["p"])
        return frozenset()

    def carrier(self, l):
        """local type can carry an error"""
        s = self.ty(l)["s"]
        return bool(STORAGE.search(s)) or "std::result::Result" in s or "dyn" in s or "impl" in s

    def is_error(self, l):
        s = self.ty(l)["s"]
        return self.ty(l)["k"] != "ref" and bool(re.match(r"(std::io::Error|bincode::Error|std::boxed::Box<bincode::ErrorKind>|.*(lsm_tree|bp_tree::pager|bp_tree)::Error)$", s))

    def run(self):
        fn = self.fn
        env, open_ = {}, frozenset()
        for i in range(1, fn.argc + 1):
            if fallible(self.ty(i)["s"]) and self.ty(i)["k"] != "ref":
                env[i] = frozenset(["argument %d" % i])
                open_ |= env[i]
            elif self.is_error(i) and outcome(self.ty(0)["s"]):
                # a handler of errors: it may turn one into another, not into a success
                env[i] = frozenset(["argument %d" % i])
                open_ |= env[i]
        start = (0, frozenset(env.items()), open_, frozenset())
        seen = {start}
        work = [start]
        while work:
            s = work.pop()
            self.states += 1
            if self.states > 40000:
                self.err = "state budget exhausted"
                return
            for n in self.step(s):
                if n not in seen:
                    seen.add(n)
                    work.append(n)

    def report(self, cat, text, site):
        self.bad.append((cat, text, site))

    def step(self, s):
        bb, envf, open_, disc = s
        env = dict(envf)
        disc = dict(disc)
        fn = self.fn
        blk = fn.blocks[bb]
        for st in blk["s"]:
            if st["k"] != "assign":
                continue
            r, p = st["r"], st["p"]
            t = frozenset()
            for key in ("o", "l", "r"):
                if isinstance(r.get(key), dict):
                    t |= self.op(env, r[key])
            for o in r.get("ops", []):
                t |= self.op(env, o)
            if r["k"] in ("ref", "addr"):
                t |= self.taint(env, r["p"])
            if r["k"] == "discr":
                t = self.taint(env, r["p"])
                # a place read under a downcast of a tainted local is still about that local
                pt = self.place_ty(r["p"])
                disc[p["l"]] = (pt, t)
                env.pop(p["l"], None)
                continue
            disc.pop(p["l"], None)
            self.assign(env, p, t)
        t = blk["t"]
        k = t["k"]
        out = []

        def go(b, o=None, e=None):
            if b is None:
                return
            e = env if e is None else e
            oo = open_ if o is None else o
            live = {l: v & (open_ if o is None else o) for l, v in e.items()}
            out.append((b, frozenset((l, v) for l, v in live.items() if v), open_ if o is None else o, frozenset((l, (v[0], v[1] & oo)) for l, v in disc.items() if v[1] & oo)))

        if k == "return":
            carried = env.get(0, frozenset())
            lost = open_ - carried
            for x in sorted(lost, key=str):
                self.report("lost", "the error of `%s` does not reach the caller on a path that returns" % (x if isinstance(x, str) else x[0]), x if isinstance(x, str) else "%s (call at %s)" % (fn.path, x[1]))
            return []
        if k == "switch":
            d = t["d"]
            l = d["p"]["l"] if d["k"] in ("copy", "move") and not d["p"]["p"] else None
            if l in disc:
                pt, toks = disc[l]
                toks = toks & open_
                vals = t["cases"]
                if pt in ("std::result::Result", "std::ops::ControlFlow", "std::option::Option"):
                    good = 0
                    covered = {v for v, _ in vals}
                    for v, b in vals:
                        go(b, open_ - toks if v == good else None)
                    other = 1 if 0 in covered else 0
                    if fn.blocks[t["else"]]["t"]["k"] != "unreachable":
                        go(t["else"], open_ - toks if other == good else None)
                    return out
                if pt in ("eof", "not eof"):
                    eof = {x for x in toks if not isinstance(x, str) and x[0].startswith("read_u")}
                    for v, b in vals:
                        go(b, open_ - eof if (v != 0) == (pt == "eof") else None)
                    # the other branch of a two-way test on a bool
                    go(t["else"], open_ - eof if pt == "eof" and any(v == 0 for v, _ in vals) or pt != "eof" and not any(v == 0 for v, _ in vals) else None)
                    return out
                if pt == "std::io::ErrorKind" and toks:
                    for v, b in vals:
                        # the end of the file at a record boundary is the end of the data
                        eof = {x for x in toks if not isinstance(x, str) and x[0].startswith("read_u")}
                        go(b, open_ - eof if v == self.eof_index else None)
                    go(t["else"])
                    return out
            for v, b in t["cases"]:
                go(b)
            go(t["else"])
            return out
        if k == "call":
            f = t["f"]
            path = (f.get("rpath") or f["path"]) if f else "<indirect>"
            name = path.rsplit("::", 1)[-1]
            full = f["full"] if f else ""
            d = t["d"]
            dty = self.ty(d["l"])["s"] if not d["p"] else ""
            args = frozenset()
            for a in t["args"]:
                if a["k"] in ("copy", "move"):
                    if self.ty(a["p"]["l"])["k"] == "ref" and not (path.endswith("::as_ref") or path.endswith("::as_mut") or name == "kind"):
                        continue
                    args |= self.op(env, a)
            no = open_
            if f and f["path"] in PARTIAL:
                self.report("partial", "`%s` may transfer fewer bytes than asked for and nothing checks how many" % PARTIAL[f["path"]], "%s (call at %s)" % (fn.path, t.get("sp")))
            if f and name in EATERS and (f["path"].startswith("std::iter::Iterator::") or " as std::iter::Iterator>" in path) and (fallible(full) or self.result_iter(f, full)):
                self.report("eaten", "`%s` consumes results of storage reads without looking at them" % name, "%s (call at %s)" % (fn.path, t.get("sp")))
            res = args
            if LOSSY.match(path):
                res = frozenset()
            elif ABORT.search(path):
                no = open_ - args
                res = frozenset()
            elif outcome(dty) and not args:
                self.calls += 1
                tok = (name, t.get("sp", ""))
                if tok in open_:
                    # the previous attempt at this very call is still unanswered: some live local must hold its error
                    live = self.live_in(t["t"]) - {d["l"]} if t["t"] is not None else set()
                    if not any(tok in v for l, v in env.items() if l in live):
                        self.report("lost", "the error of `%s` is forgotten when the call is made again" % name, "%s (call at %s)" % (fn.path, t.get("sp")))
                no = open_ | {tok}
                res = frozenset([tok])
            elif name == "spawn" or not self.can_carry(d, dty):
                res = frozenset() if name != "kind" else args
            e2 = dict(env)
            disc.pop(d["l"], None)
            if name in ("eq", "ne") and len(t["args"]) == 2 and all(a["k"] in ("copy", "move") for a in t["args"]):
                ls = [a["p"]["l"] for a in t["args"]]
                if any(l in self.eof for l in ls):
                    toks = frozenset().union(*[env.get(l, frozenset()) for l in ls])
                    if toks:
                        disc[d["l"]] = ("eof" if name == "eq" else "not eof", toks)
            self.assign(e2, d, res)
            go(t["t"], no, e2)
            return out
        if k == "drop":
            go(t["t"])
            return out
        for b in fn.succs(bb):
            go(b)
        return out

    def can_carry(self, d, dty):
        return True

    def result_iter(self, f, full):
        s = self.prog.types[f["self"]]["s"] if isinstance(f.get("self"), int) else ""
        return fallible(s) or bool(re.search(r"(SSTableDataIter|TieredIter|LeveledIter|BpMapIterMut)", s + full)) and "filter_map" not in full

    def place_ty(self, p):
        t = self.ty(p["l"])
        for e in p["p"]:
            if e["k"] == "deref" and t["k"] == "ref":
                t = self.prog.types[t["t"]]
            elif e["k"] == "field" and "ty" in e:
                t = self.prog.types[e["ty"]]
        return t.get("path")

    def assign(self, env, p, t):
        l = p["l"]
        if not p["p"]:
            if t:
                env[l] = t
            else:
                env.pop(l, None)
        elif t:
            env[l] = env.get(l, frozenset()) | t


def scope(prog):
    for f in prog.fns.values():
        if re.match(r"crate::(<)?(bp_tree|lsm_tree)", f.path) and "serde" not in f.path and "_::" not in f.path and "std::fmt::" not in f.path and "std::error::" not in f.path and "std::convert::" not in f.path:
            yield f


def spawned(prog):
    """closures handed to thread::spawn"""
    r = set()
    for f in prog.fns.values():
        cl = {}
        for b in f.blocks:
            for s in b["s"]:
                if s["k"] == "assign" and s["r"]["k"] == "agg" and s["r"].get("a") == "closure" and not s["p"]["p"]:
                    cl[s["p"]["l"]] = s["r"]["path"]
        for b, t in f.calls():
            if t["f"] and t["f"]["path"].endswith("thread::spawn"):
                for a in t["args"]:
                    if a["k"] in ("copy", "move") and a["p"]["l"] in cl:
                        r.add(cl[a["p"]["l"]])
    return r


def E01(ctx):
    ctx.rule("error flow", "on every path of every function of the persistent maps, the error of a failing storage call reaches the return value unless the success branch was taken")
    ctx.rule("no silent consumers", "iterators over storage reads are not counted, skipped or reduced to their last item without their errors being looked at, and partial reads and writes are not used")
    ctx.assumptions.append("a failed background compaction is abandoned, not reported: the operation that started it does not need it")
    ctx.assumptions.append("end of file at a record's length prefix means the end of the table")
    sp = spawned(ctx.prog)
    n = calls = 0
    for f in scope(ctx.prog):
        if f.path in sp:
            continue
        a = Analysis(ctx.prog, f, False)
        a.run()
        n += 1
        calls += a.calls
        ctx.count("abstract states", a.states)
        key = "errors:" + f.path
        if a.err:
            ctx.undecided(key, f.path, a.err)
        seen = set()
        for cat, text, site in a.bad:
            if (text, site) not in seen:
                seen.add((text, site))
                ctx.bad("%s:%s" % (f.path, text[:70]), site, text)
        if not a.bad and not a.err:
            ctx.ok(key, f.path, "%d fallible calls" % a.calls)
    ctx.count("functions", n)
    ctx.floor("fallible call sites", calls, 100)
    ctx.count("background closures exempt", len(sp))


if __name__ == "__main__":
    import sys
    from .. import mir
    p = mir.load(sys.argv[1])
    sp = spawned(p)
    print("spawned", sp)
    tot = 0
    for f in scope(p):
        a = Analysis(p, f, False)
        a.run()
        tot += a.calls
        if a.bad or a.err:
            print(f.path, a.calls, a.err)
            for b in sorted(set(a.bad)):
                print("    ", b)
    print(tot)
