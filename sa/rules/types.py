"""Type-level rules: who can get a mutable reference, which borrow a reference is tied to, Send/Sync."""


def _item(prog, im):
    return im["assoc"].get("Item", {"regions": []})["regions"]


def _mut_adts(prog):
    """ADTs whose Iterator impl hands out mutable references"""
    r = set()
    for im in prog.impls:
        if im.get("trait") == "std::iter::Iterator" and any(x["how"] == "refmut" and not x["shared"] for x in _item(prog, im)):
            t = prog.types[im["self"]]
            if t["k"] == "adt":
                r.add(t["path"])
    return r


def _exported(ctx):
    for f in ctx.prog.fns.values():
        if f.d.get("kind") in ("Fn", "AssocFn") and (f.d.get("reachable") or f.d.get("exported")) and not f.d.get("unsafe"):
            yield f


def _short(r):
    return r.rsplit("::", 1)[-1].rstrip(")") if "::" in r else r


def mutable_alias(ctx):
    ctx.rule("mutable-alias", "an exported safe function whose result gives mutable access under region r must take, for r, an exclusive borrow or an owned/exclusively borrowed value that carries r")
    prog = ctx.prog
    mut = _mut_adts(prog)
    ctx.floor("mutable iterator types", len(mut), 7)
    n = 0
    for f in _exported(ctx):
        outs = [x for x in f.d["rout"] if (x["how"] == "refmut" and not x["shared"]) or (x["how"] == "arg" and x.get("adt") in mut and not x["shared"])]
        if not outs:
            continue
        n += 1
        for x in outs:
            ok = False
            for inp in f.d["rin"]:
                for y in inp:
                    if y["r"] != x["r"] or y["shared"]:
                        continue
                    if y["how"] == "refmut":
                        ok = True
                    if y["how"] == "arg" and (y.get("adt") in mut or not y.get("adt", "").startswith("crate::")):
                        ok = True
            ctx.need(ok, "mutable-alias:%s" % f.path, f.span,
                     "%s hands out mutable access for region %s: signature %s" % (f.path, _short(x["r"]), f.d["sig"]))
    ctx.floor("exported functions handing out mutable access", n, 22)
    k = 0
    for im in prog.impls:
        if im.get("trait") != "std::iter::IntoIterator" and im.get("trait") != "std::iter::Iterator":
            continue
        for nm, a in im.get("assoc", {}).items():
            for x in a["regions"]:
                if x["shared"] or not (x["how"] == "refmut" or (x["how"] == "arg" and x.get("adt") in mut)):
                    continue
                k += 1
                ok = any(y["r"] == x["r"] and not y["shared"] and (y["how"] == "refmut" or y["how"] == "arg") for y in im["sregions"])
                ctx.need(ok, "mutable-alias:%s for %s" % (im["trait"], prog.tys(im["self"])), im["span"], "associated type %s gives mutable access under %s" % (nm, x["r"]))
    ctx.floor("mutable iterator impls", k, 12)
    # a type handing out &mut must not be duplicable
    for im in prog.impls:
        if im.get("trait") in ("std::clone::Clone", "std::marker::Copy"):
            t = prog.types[im["self"]]
            if t["k"] == "adt" and t["path"] in mut:
                ctx.bad("mutable-iterator-clone:%s" % t["path"], im["span"], "a duplicated mutable iterator yields the same mutable reference twice")
            elif t["k"] == "adt":
                ctx.ok("clone-impl:%s" % t["path"], im["span"])


def lifetimes(ctx):
    ctx.rule("bound-region", "every region in the result of an exported safe function occurs in one of its inputs (or is 'static inside a 'static input)")
    n = 0
    for f in _exported(ctx):
        outs = f.d["rout"]
        if not outs:
            continue
        n += 1
        have = {y["r"] for inp in f.d["rin"] for y in inp}
        for x in outs:
            if x["how"] == "dyn":
                continue
            ctx.need(x["r"] in have, "bound-region:%s" % f.path, f.span, "result region %s %s: %s" % (_short(x["r"]), "is tied to an argument" if x["r"] in have else "is not tied to any argument", f.d["sig"]))
    ctx.floor("exported functions returning references", n, 90)


OWNERS_THREADED = ("crate::sync::stack::Stack",)


def auto_traits(ctx):
    ctx.rule("auto-traits", "no public type is Send (Sync) with contents that are not Send (Sync); a type borrowing contents shared is Send only with Sync contents; checked with Rc<()> and Cell<()> as contents")
    n = 0
    prog = ctx.prog
    shared_iters = set()
    for im in prog.impls:
        if im.get("trait") == "std::iter::Iterator":
            t = prog.types[im["self"]]
            rs = _item(prog, im)
            if t["k"] == "adt" and t.get("local") and any(x["how"] == "ref" for x in rs) and not any(x["how"] == "refmut" for x in rs):
                shared_iters.add(t["path"])
    for a in prog.adts.values():
        if not a["local"] or not a.get("reachable") or "__Visitor" in a["path"]:
            continue
        tparams = [p for p in a["params"] if not p.startswith("'")]
        if not tparams:
            continue
        n += 1
        s, y = a["send"], a["sync"]
        ctx.need(s["Rc"] is False, "send:%s" % a["path"], a["span"], "%s<Rc<()>>: Send is %s" % (a["path"], s["Rc"]))
        ctx.need(y["Cell"] is False and y["Rc"] is False, "sync:%s" % a["path"], a["span"], "%s<Cell<()>>: Sync is %s, with Rc<()> %s" % (a["path"], y["Cell"], y["Rc"]))
        if a["path"] in shared_iters and s["u8"]:
            ctx.need(s["Cell"] is False, "send-shared:%s" % a["path"], a["span"], "%s<Cell<()>>: Send is %s although it holds shared references" % (a["path"], s["Cell"]))
    ctx.floor("public generic types checked for Send/Sync", n, 40)
    for p in OWNERS_THREADED:
        a = prog.adts.get(p)
        if a is None:
            ctx.bad("anchor:" + p, "", "type is gone")
            continue
        ctx.need(a["sync"]["u8"] is True and a["send"]["u8"] is True, "usable-across-threads:%s" % p, a["span"], "%s<u8>: Send+Sync" % p)
    # unsafe impls of Send/Sync written by hand
    k = 0
    for im in prog.impls:
        if im.get("trait") in ("std::marker::Send", "std::marker::Sync"):
            k += 1
    ctx.counts["hand-written Send/Sync impls"] = k
