"""Development aid: apply textual mutants / refactorings to a scratch copy of the repository and see which properties alarm.
usage: mutate.py MUTANTS.py SCRATCH_COPY [name-regex]    (MUTANTS: list of (name, file, old, new, props); props empty = must stay quiet)"""
import importlib, os, re, subprocess, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import mir, registry
from sa.check import Ctx, known
from concurrent.futures import ProcessPoolExecutor


def run(args):
    dump, p, name = args
    prog = mir.load(dump)
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("sa.rules"):
            for c in ("_cache", "_ops"):
                if hasattr(m, c):
                    getattr(m, c).clear()
    ctx = Ctx(prog, p, "quick")
    import traceback
    for modname, fname in registry.CHECKS[p]["rules"]:
        try:
            getattr(importlib.import_module("sa.rules." + modname), fname)(ctx)
        except Exception:
            ctx.undecided("%s.%s" % (modname, fname), "", traceback.format_exc(limit=6))
    kn = {k for k, _ in known(p)}
    bad = [o for o in ctx.obl if o[0] == "violation" and o[1] not in kn]
    und = [o for o in ctx.obl if o[0] == "undecided"]
    return name, p, bad, und


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    repo = sys.argv[2]
    pat = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    allp = os.environ.get("PROPS", "").split() or sorted(registry.CHECKS)
    verbose = os.environ.get("V")
    caught = missed = loud = 0
    with ProcessPoolExecutor(8) as ex:
        for m in ns["M"]:
            name, fn, old, new, props = m[:5]
            if pat and not pat.search(name):
                continue
            edits = [(fn, old, new)] + list(m[5:])
            saved = {}
            ok = True
            for f, o, n in edits:
                path = os.path.join(repo, f)
                s = open(path).read()
                saved.setdefault(path, s)
                if o not in s:
                    print("%-34s TEXT NOT FOUND in %s" % (name, f))
                    ok = False
                    break
                open(path, "w").write(s.replace(o, n, 1))
            d = "/tmp/mutdump.%d.json" % os.getpid()
            r = subprocess.run([os.path.join(HERE, "dump.sh"), d], env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True) if ok else None
            for p, s in saved.items():
                open(p, "w").write(s)
            if not ok:
                continue
            if r.returncode:
                print("%-34s DOES NOT COMPILE\n%s" % (name, (r.stderr + r.stdout)[-800:]))
                continue
            which = props.split() if os.environ.get("ONLY") and props else allp
            res = list(ex.map(run, [(d, p, name) for p in which]))
            alarms = {p: b for _, p, b, u in res if b}
            und = {p: u for _, p, b, u in res if u}
            want = set(props.split())
            hit = want & set(alarms)
            if want:
                status = "caught" if hit else "MISSED"
                caught += bool(hit)
                missed += not hit
            else:
                status = "quiet" if not alarms else "FALSE ALARM"
                loud += bool(alarms)
            print("%-34s %-11s want=%-12s alarms=%s undecided=%s" % (name, status, props, ",".join(sorted(alarms)), ",".join("%s(%d)" % (p, len(u)) for p, u in sorted(und.items()))))
            if verbose or status in ("MISSED", "FALSE ALARM"):
                for p, b in alarms.items():
                    for o in b[:2]:
                        print("      %s %s @ %s: %s" % (p, o[1], o[2], o[3][:160]))
                for p, u in list(und.items())[:3]:
                    for o in u[:2]:
                        print("      ? %s %s: %s" % (p, o[1], o[3][-200:]))
            sys.stdout.flush()
    print("caught %d missed %d false alarms %d" % (caught, missed, loud))


main()
