"""Linear expressions over named integer quantities and a small linear-inequality domain."""


from math import gcd


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        if isinstance(t, dict):
            t = tuple(sorted((k, v) for k, v in t.items() if v != 0))
        self.t = t
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return Lin(d, self.c + o.c)

    def __neg__(self):
        return Lin(tuple((k, -v) for k, v in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return Lin((), 0)
        return Lin(tuple((k, v * n) for k, v in self.t), self.c * n)

    def const(self):
        return self.c if not self.t else None

    def subst(self, m):
        if not any(k in m for k, _ in self.t):
            return self
        r = Lin((), self.c)
        for k, v in self.t:
            if k in m:
                x = m[k]
                r = r + (x.scale(v) if isinstance(x, Lin) else Lin(((x, v),), 0))
            else:
                r = r + Lin(((k, v),), 0)
        return r

    def syms(self):
        return [k for k, _ in self.t]

    def __repr__(self):
        s = "+".join(("%s" % k if v == 1 else "%d*%s" % (v, k)) for k, v in self.t)
        if self.c or not s:
            s += ("+" if s and self.c >= 0 else "") + str(self.c)
        return s


def C(n):
    return Lin((), n)


def V(s):
    return Lin(((s, 1),), 0)


def infeasible(cons, limit=4000):
    """True iff the conjunction of (lin >= 0) has no integer solution by elimination (equalities first, then Fourier-Motzkin)."""
    cur = {}                # coefficients -> least constant
    for l in cons:
        if not l.t:
            if l.c < 0:
                return True
            continue
        t = l.t
        o = cur.get(t)
        if o is None or l.c < o:
            cur[t] = l.c
    while cur:
        # equalities
        sub = None
        for t, c in cur.items():
            o = cur.get(tuple((k, -v) for k, v in t))
            if o is not None:
                if c + o < 0:
                    return True
                if c + o == 0 and sub is None:
                    for k, v in t:
                        if v == 1 or v == -1:
                            sub = (t, c, k, v)
                            break
        if sub is not None:
            t, c, var, co = sub
            rest = [(k, -v * co) for k, v in t if k != var]
            rc = -c * co
            nxt = {}
            for t2, c2 in cur.items():
                a = 0
                for k, v in t2:
                    if k == var:
                        a = v
                        break
                if a:
                    d = {k: v for k, v in t2 if k != var}
                    for k, v in rest:
                        d[k] = d.get(k, 0) + a * v
                    t2, c2 = norm(d, c2 + a * rc)
                    if not t2:
                        if c2 < 0:
                            return True
                        continue
                o = nxt.get(t2)
                if o is None or c2 < o:
                    nxt[t2] = c2
            cur = nxt
            continue
        occ = {}
        for t in cur:
            for k, v in t:
                p = occ.get(k)
                if p is None:
                    p = occ[k] = [0, 0]
                p[0 if v > 0 else 1] += 1
        var = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k))
        pos, neg, nxt = [], [], {}
        for t, c in cur.items():
            a = 0
            for k, v in t:
                if k == var:
                    a = v
                    break
            if a > 0:
                pos.append((a, t, c))
            elif a < 0:
                neg.append((-a, t, c))
            else:
                nxt[t] = c
        for a, p, pc in pos:
            for b, q, qc in neg:
                d = {k: v * b for k, v in p}
                for k, v in q:
                    d[k] = d.get(k, 0) + v * a
                t, c = norm(d, pc * b + qc * a)
                if not t:
                    if c < 0:
                        return True
                    continue
                o = nxt.get(t)
                if o is None or c < o:
                    nxt[t] = c
        cur = nxt
        if len(cur) > limit:
            return False
    return False


def norm(d, c):
    t = sorted((k, v) for k, v in d.items() if v)
    if not t:
        return (), c
    g = 0
    for _, v in t:
        g = gcd(g, v)
        if g == 1:
            return tuple(t), c
    return tuple((k, v // g) for k, v in t), c // g


def implies(cons, goal):
    """facts |= goal >= 0 (over the integers, sufficient test)"""
    k = goal.const()
    if k is not None and k >= 0:
        return True
    return infeasible(list(cons) + [(-goal) - 1])


def samples(cons, n=10, limit=600):
    """integer points satisfying cons (found by elimination and back-substitution; deterministic)"""
    import random
    cur = {}
    for l in cons:
        if l.t:
            o = cur.get(l.t)
            if o is None or l.c < o:
                cur[l.t] = l.c
    steps = []
    while cur:
        sub = None
        for t, c in cur.items():
            o = cur.get(tuple((k, -v) for k, v in t))
            if o is not None and c + o == 0:
                for k, v in t:
                    if v == 1 or v == -1:
                        sub = (t, c, k, v)
                        break
                if sub:
                    break
        if sub:
            t, c, var, co = sub
            rest = [(k, -v * co) for k, v in t if k != var]
            rc = -c * co
            steps.append((var, rest, rc))
            nxt = {}
            for t2, c2 in cur.items():
                d = dict(t2)
                a = d.pop(var, 0)
                if a:
                    for k, v in rest:
                        d[k] = d.get(k, 0) + a * v
                    t2, c2 = norm(d, c2 + a * rc)
                    if not t2:
                        if c2 < 0:
                            return []
                        continue
                o = nxt.get(t2)
                if o is None or c2 < o:
                    nxt[t2] = c2
            cur = nxt
            continue
        occ = {}
        for t in cur:
            for k, v in t:
                p = occ.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        var = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k))
        mine, nxt = [], {}
        for t, c in cur.items():
            d = dict(t)
            a = d.pop(var, 0)
            if a:
                mine.append((a, d, c))
            else:
                nxt[t] = c
        for a, p, pc in mine:
            if a < 0:
                continue
            for b, q, qc in mine:
                if b > 0:
                    continue
                d = {k: v * -b for k, v in p.items()}
                for k, v in q.items():
                    d[k] = d.get(k, 0) + v * a
                t, c = norm(d, pc * -b + qc * a)
                if not t:
                    if c < 0:
                        return []
                    continue
                o = nxt.get(t)
                if o is None or c < o:
                    nxt[t] = c
        steps.append((var, mine, None))
        cur = nxt
        if len(cur) > limit:
            return []
    rng = random.Random(7)
    out = []
    for i in range(n):
        env = {}
        bad = False
        for var, x, rc in reversed(steps):
            if rc is not None:
                env[var] = sum(v * env.setdefault(k, 0) for k, v in x) + rc
                continue
            lo = hi = None
            for a, d, c in x:
                s = c + sum(v * env.setdefault(k, 0) for k, v in d.items())
                if a > 0:
                    b = -(s // a)
                    lo = b if lo is None or b > lo else lo
                else:
                    b = s // -a
                    hi = b if hi is None or b < hi else hi
            if lo is not None and hi is not None and lo > hi:
                bad = True
                break
            if i == 0:
                v = lo if lo is not None else hi
            elif i == 1:
                v = hi if hi is not None else lo + 7
            else:
                l2 = lo if lo is not None else hi - 9
                h2 = hi if hi is not None else l2 + 9
                v = rng.choice((l2, h2, rng.randint(l2, h2), min(l2 + 1, h2)))
            env[var] = v
        if not bad and all(l.c + sum(v * env.get(k, 0) for k, v in l.t) >= 0 for l in cons):
            out.append(env)
    return out


def holds(l, pts):
    for e in pts:
        s = l.c
        for k, v in l.t:
            s += v * e.get(k, 0)
        if s < 0:
            return False
    return True
