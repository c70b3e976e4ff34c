"""Affine integer expressions and the linear-constraint (polyhedral) abstract
domain used for lengths, indices, degrees and loop counters.  Entailment is
decided by Fourier-Motzkin elimination with integer tightening."""
from math import gcd
from functools import lru_cache


def skey(s):
    return s if isinstance(s, str) else repr(s)


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    @staticmethod
    def of(d, c=0):
        return Lin(c, tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: skey(x[0]))))

    @staticmethod
    def sym(s):
        return Lin(0, ((s, 1),))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def isconst(self):
        return not self.t

    def d(self):
        return dict(self.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin.of(d, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, Lin):
            if k.isconst():
                k = k.c
            elif self.isconst():
                return k * self.c
            else:
                return None
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def coef(self, s):
        for q, k in self.t:
            if q == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        """m: sym -> Lin.  Also substitutes inside structured symbols."""
        hit = False
        for s, _ in self.t:
            if s in m or isinstance(s, tuple):
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c)
        for s, k in self.t:
            if s in m:
                r = r + m[s] * k
            elif isinstance(s, tuple):
                r = r + subst_isym(s, m) * k
            else:
                r = r + Lin(0, ((s, k),))
        return r

    def __repr__(self):
        out = ""
        for s, k in self.t:
            n = s if isinstance(s, str) else show_isym(s)
            if k == 1:
                out += "+" + n
            elif k == -1:
                out += "-" + n
            else:
                out += "%+d%s" % (k, n)
        if self.c or not out:
            out += "%+d" % self.c
        return out[1:] if out[0] == "+" else out


def show_isym(s):
    return "%s(%s)" % (s[0], ",".join(str(x) for x in s[1:]))


def subst_isym(s, m):
    """structured integer symbols: ('app', name, Lin) etc."""
    new = tuple(x.subst(m) if isinstance(x, Lin) else x for x in s)
    if new == s:
        return Lin.sym(s)
    if new in m:
        return m[new]
    return Lin.sym(new)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def _norm(c, d):
    """constraint sum d + c >= 0, tightened to integers"""
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {s: k // g for s, k in d.items()}
        c = c // g
    return c, d


_cache = {}


def feasible(cons, budget=4000):
    """cons: iterable of Lin meaning >= 0.  False = provably infeasible over Z
    (rational FM + tightening); True = maybe feasible."""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        r = _feasible(key, budget)
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
    return r


def _feasible(cons, budget):
    rows = {}
    for l in cons:
        c, d = _norm(l.c, dict(l.t))
        if not d:
            if c < 0:
                return False
            continue
        k = tuple(sorted(d.items(), key=lambda x: skey(x[0])))
        if k not in rows or rows[k] > c:
            rows[k] = c
    while rows:
        # check opposite pairs quickly
        for k, c in rows.items():
            nk = tuple((s, -v) for s, v in k)
            if nk in rows and rows[nk] + c < 0:
                return False
        cnt = {}
        for k in rows:
            for s, v in k:
                p = cnt.setdefault(s, [0, 0])
                p[0 if v > 0 else 1] += 1
        # choose variable with least growth
        best = min(cnt, key=lambda s: (cnt[s][0] * cnt[s][1] - cnt[s][0] - cnt[s][1], skey(s)))
        pos, neg, rest = [], [], {}
        for k, c in rows.items():
            v = dict(k).get(best, 0)
            if v > 0:
                pos.append((k, c, v))
            elif v < 0:
                neg.append((k, c, -v))
            else:
                rest[k] = c
        if len(pos) * len(neg) + len(rest) > budget:
            return True
        for k1, c1, v1 in pos:
            for k2, c2, v2 in neg:
                d = {}
                for s, v in k1:
                    d[s] = d.get(s, 0) + v * v2
                for s, v in k2:
                    d[s] = d.get(s, 0) + v * v1
                d = {s: v for s, v in d.items() if v}
                c = c1 * v2 + c2 * v1
                c, d = _norm(c, d)
                if not d:
                    if c < 0:
                        return False
                    continue
                k = tuple(sorted(d.items(), key=lambda x: skey(x[0])))
                if k not in rest or rest[k] > c:
                    rest[k] = c
        rows = rest
    return True


def relevant(cons, goal):
    """constraints connected to goal's symbols"""
    syms = set(goal.syms())
    cons = list(cons)
    used = [False] * len(cons)
    ch = True
    while ch:
        ch = False
        for i, l in enumerate(cons):
            if not used[i] and any(s in syms for s in l.syms()):
                used[i] = True
                n = set(l.syms()) - syms
                if n:
                    syms |= n
                ch = True
    return [l for i, l in enumerate(cons) if used[i]]


def entails(cons, goal):
    """cons |= goal >= 0 (sound, incomplete)"""
    if goal.isconst():
        if goal.c >= 0:
            return True
        return not feasible(cons)
    rel = relevant(cons, goal)
    return not feasible(rel + [-goal - 1])
