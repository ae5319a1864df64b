"""Runs the rules of one property over a MIR dump; prints the verdict and writes the evidence."""
import importlib, json, os, sys, time, traceback
from . import mir

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """Collects obligations. status: ok | violation | undecided"""

    def __init__(self, prog, prop, tier):
        self.prog, self.prop, self.tier = prog, prop, tier
        self.obl = []
        self.counts = {}
        self.assumptions = []
        self.rules = []

    def rule(self, name, text):
        self.rules.append("%s: %s" % (name, text))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, key, where="", detail=""):
        self.obl.append(("ok", key, where, detail))

    def bad(self, key, where, detail):
        self.obl.append(("violation", key, where, detail))

    def undecided(self, key, where, detail):
        self.obl.append(("undecided", key, where, detail))

    def need(self, cond, key, where, detail):
        (self.ok if cond else self.bad)(key, where, detail)
        return cond

    def floor(self, what, n, minimum):
        """a rule that matches nothing proves nothing"""
        self.counts[what] = n
        if n < minimum:
            self.bad("floor:" + what, "", "only %d %s found in the tree, %d expected: the rule has lost its anchor" % (n, what, minimum))

    def fn(self, path):
        f = self.prog.fn(path)
        if f is None:
            self.bad("anchor:" + path, "", "function %s is gone: the public operation this property is anchored at no longer exists" % path)
        return f


def known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, text = rest[4:].partition(" :: ")
                    r.append((k, text))
    return r


LEVELS = {}


def main():
    t0 = time.time()
    dump, prop = sys.argv[1], sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prog = mir.load(dump)
    from . import registry
    spec = registry.CHECKS[prop]
    ctx = Ctx(prog, prop, tier)
    for modname, fname in spec["rules"]:
        try:
            mod = importlib.import_module("sa.rules." + modname)
            getattr(mod, fname)(ctx)
        except Exception:
            ctx.undecided("%s.%s" % (modname, fname), "", "analysis gave up: " + traceback.format_exc(limit=8))
    kn = known(prop)
    knkeys = {k: t for k, t in kn}
    bad = [o for o in ctx.obl if o[0] == "violation"]
    und = [o for o in ctx.obl if o[0] == "undecided"]
    ok = [o for o in ctx.obl if o[0] == "ok"]
    new, seen = [], set()
    hit = set()
    for o in bad:
        if o[1] in knkeys:
            hit.add(o[1])
        elif o[1] not in seen:
            seen.add(o[1])
            new.append(o)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, knkeys[k]))
    rc = 0
    if new:
        rp = os.path.join(HERE, "evidence", "%s.violations.txt" % prop)
        with open(rp, "w") as f:
            for i, o in enumerate(new):
                f.write("[%d] %s\n    at %s\n    %s\n\n" % (i + 1, o[1], o[2], o[3].replace("\n", "\n    ")))
        for o in new[:20]:
            print("  %s\n    at %s\n    %s" % (o[1], o[2], o[3].replace("\n", "\n    ")[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    for o in und:
        print("UNDECIDED %s %s: %s" % (o[1], o[2], o[3].strip().splitlines()[-1][:300] if o[3] else ""))
    cov = {
        "obligations": len(ctx.obl), "discharged": len(ok),
        "checker_cmd": "./check.sh %s" % prop,
        "trusted_base": ["rustc nightly front end and MIR construction", "mirdump driver", "sa/*.py rules and library models"],
        "explanation": spec["technique"] + ". " + spec.get("note", ""),
        "rules": ctx.rules,
        "counts": ctx.counts,
        "undecided": [{"key": o[1], "why": o[3][-400:]} for o in und],
        "known_findings": sorted(hit),
        "samples": [{"key": o[1], "at": o[2], "detail": o[3][:300]} for o in ok[:: max(1, len(ok) // 12)][:14]],
        "functions_in_dump": len(prog.fns),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []) + ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %.1fs" % (prop, len(ctx.obl), len(ok), len(bad), len(hit), len(und), time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()
