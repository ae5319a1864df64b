"""Loading and pretty-printing of the MIR dump; basic CFG utilities."""
import json, re, sys


class Program:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.fns = {}
        for f in d["fns"]:
            fn = Fn(self, f)
            self.fns[fn.path] = fn
        self.impls = d["impls"]
        self.consts = {c["path"]: c.get("v") for c in d["consts"]}

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def fn(self, path):
        return self.fns.get(path)


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.path = d["path"]
        self.kind = d["kind"]
        self.name = d.get("name") or d["path"].rsplit("::", 1)[-1]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.span = d["span"]
        self._succ = None

    def __repr__(self):
        return "<Fn %s>" % self.path

    def lname(self, i):
        return self.locals[i].get("name")

    def lty(self, i):
        return self.prog.types[self.locals[i]["ty"]]

    def succs(self, b, unwind=False):
        t = self.blocks[b]["t"]
        return term_succs(t, unwind)

    def reachable_blocks(self):
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(self.succs(b))
        return seen

    def calls(self, unwind=False):
        blocks = range(len(self.blocks)) if unwind else sorted(self.reachable_blocks())
        for b in blocks:
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                yield b, t


def term_succs(t, unwind=False):
    k = t["k"]
    r = []
    if k == "goto":
        r = [t["t"]]
    elif k == "switch":
        r = [x[1] for x in t["cases"]] + [t["else"]]
    elif k in ("drop", "assert"):
        r = [t["t"]]
    elif k == "call":
        r = [t["t"]] if t["t"] is not None else []
    if unwind and t.get("u") is not None:
        r = r + [t["u"]]
    return r


def load(path):
    with open(path) as f:
        return Program(json.load(f))


# ---------- pretty printing ----------
def pplace(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        k = e["k"]
        if k == "deref":
            s = "(*%s)" % s
        elif k == "field":
            s = "%s.%s" % (s, e["name"])
        elif k == "downcast":
            s = "(%s as %s)" % (s, e["name"] or e["v"])
        elif k == "index":
            s = "%s[_%d]" % (s, e["l"])
        elif k == "cindex":
            s = "%s[%s%d]" % (s, "-" if e["end"] else "", e["i"])
        else:
            s = "%s.<%s>" % (s, k)
    return s


def pop(o):
    k = o["k"]
    if k in ("copy", "move"):
        return ("" if k == "copy" else "move ") + pplace(o["p"])
    if k == "const":
        return "const " + (str(o["v"]) if o["v"] is not None else o["s"])
    return k


def prv(r):
    k = r["k"]
    if k == "use":
        return pop(r["o"])
    if k == "ref":
        return "&" + ("mut " if r["mut"] else "") + pplace(r["p"])
    if k == "addr":
        return "&raw " + ("mut " if r["mut"] else "const ") + pplace(r["p"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], pop(r["l"]), pop(r["r"]))
    if k == "un":
        return "%s(%s)" % (r["op"], pop(r["o"]))
    if k == "discr":
        return "discr(%s)" % pplace(r["p"])
    if k == "cast":
        return "%s as <%s>(%s)" % (pop(r["o"]), r["ty"], r["ck"])
    if k == "agg":
        nm = r["a"] if r["a"] != "adt" else r["path"] + "::" + r["vname"]
        if r["a"] == "closure":
            nm = "closure " + r["path"]
        return "%s{%s}" % (nm, ", ".join(pop(o) for o in r["ops"]))
    if k == "repeat":
        return "[%s; %s]" % (pop(r["o"]), r["n"])
    return str(r)


def cname(t):
    f = t["f"]
    if f is None:
        return "<indirect %s>" % pop(t["fo"])
    return f.get("rpath") or f["path"]


def pterm(t):
    k = t["k"]
    if k == "call":
        return "%s = %s(%s) -> %s%s" % (pplace(t["d"]), t["f"]["full"] if t["f"] else cname(t), ", ".join(pop(a) for a in t["args"]), t["t"], "" if t["u"] is None else " u%s" % t["u"])
    if k == "switch":
        return "switch %s %s else %s" % (pop(t["d"]), t["cases"], t["else"])
    if k == "drop":
        return "drop %s -> %s%s" % (pplace(t["p"]), t["t"], "" if t["u"] is None else " u%s" % t["u"])
    if k == "assert":
        return "assert %s==%s -> %s" % (pop(t["c"]), t["exp"], t["t"])
    if k == "goto":
        return "goto %s" % t["t"]
    return k


def dump_fn(fn, cleanup=False):
    out = ["fn %s   [%s]" % (fn.path, fn.d.get("sig", ""))]
    for i, l in enumerate(fn.locals):
        if l.get("name") or i <= fn.argc:
            out.append("   _%d: %s  // %s" % (i, fn.prog.tys(l["ty"]), l.get("name", "")))
    for i, b in enumerate(fn.blocks):
        if b["cleanup"] and not cleanup:
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s["k"] == "assign":
                out.append("    %s = %s" % (pplace(s["p"]), prv(s["r"])))
            elif s["k"] in ("live", "dead"):
                pass
            else:
                out.append("    " + str(s))
        out.append("    " + pterm(b["t"]))
    return "\n".join(out)


if __name__ == "__main__":
    p = load(sys.argv[1])
    pat = re.compile(sys.argv[2]) if len(sys.argv) > 2 else None
    for f in p.fns.values():
        if pat is None:
            print(f.path, f.d["kind"], f.d.get("exported"), f.d.get("sig", ""))
        elif pat.search(f.path):
            print(dump_fn(f, len(sys.argv) > 3))
            print()
