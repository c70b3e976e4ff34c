"""Abstract state: store + linear facts + ring (dis)equalities + zero ranges,
and the operations on generating functions that need those facts."""
from .lin import Lin, L, entails, feasible, skey
from . import ring
from .ring import Poly, ZERO, ONE, X, el, fresh, sum_half, mul_factors, Poly_term
from .values import *


class Split(Exception):
    """analysis needs to know whether f holds: the state is partitioned on it"""

    def __init__(self, f):
        self.f = f


class GiveUp(Exception):
    """construct outside the analysed fragment"""


class Stats:
    entail = 0
    fns = set()
    loops = {}
    ranks = {}
    forks = 0
    calls = 0


class State:
    __slots__ = ("store", "lin", "zs", "nz", "zr", "bools", "sup", "defs", "path", "approx", "_ec", "univ", "late")

    def __init__(self):
        self.store = {}
        self.lin = ()
        self.zs = ()
        self.nz = ()
        self.zr = ()
        self.bools = {}
        self.sup = {}
        self.defs = {}
        self.path = ()
        self.approx = ()
        self.univ = ()
        self.late = {}      # definitions only used to finish an equality proof
        self._ec = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.lin = self.lin
        s.zs = self.zs
        s.nz = self.nz
        s.zr = self.zr
        s.bools = dict(self.bools)
        s.sup = dict(self.sup)
        s.defs = dict(self.defs)
        s.path = self.path
        s.approx = self.approx
        s.univ = self.univ
        s.late = self.late
        s._ec = None
        return s

    # ---- facts
    def add_lin(self, l):
        if l.isconst():
            return l.c >= 0
        if l in self.lin:
            return True
        self.lin = self.lin + (l,)
        self._ec = None
        return True

    def entails(self, l):
        """l >= 0"""
        if l.isconst() and l.c >= 0:
            return True
        if self._ec is None:
            self._ec = {}
        r = self._ec.get(l)
        if r is None:
            Stats.entail += 1
            r = entails(self.lin, l)
            self._ec[l] = r
        return r

    def feasible(self):
        return feasible(self.lin)

    def decide(self, f):
        """True / False / None"""
        k = f[0]
        if k == "t":
            return True
        if k == "f":
            return False
        if k == "ge":
            if self.entails(f[1]):
                return True
            if self.entails(-f[1] - 1):
                return False
            return None
        if k == "eq":
            l = f[1]
            a, b = self.entails(l), self.entails(-l)
            if a and b:
                return True
            if self.entails(l - 1) or self.entails(-l - 1):
                return False
            return None
        if k == "not":
            r = self.decide(f[1])
            return None if r is None else not r
        if k == "and":
            a = self.decide(f[1])
            if a is False:
                return False
            b = self.decide(f[2])
            if b is False:
                return False
            return True if a and b else None
        if k == "or":
            a = self.decide(f[1])
            if a is True:
                return True
            b = self.decide(f[2])
            if b is True:
                return True
            return False if (a is False and b is False) else None
        if k == "z":
            p = self.simp(f[1])
            c = p.constval()
            if c is not None:
                return c == 0
            f2 = zf(p)
            if any(zf(q) == f2 for q in self.nz):
                return False
            for q in self.zs:
                d = (p - q).constval()
                if d is not None and d != 0:
                    return False
                d = (p + q).constval()
                if d is not None and d != 0:
                    return False
            r = self.bools.get(f2)
            if r is not None:
                return r
            # product of non-zero factors, div by unit etc: a single monomial
            if len(p.t) == 1:
                (b, fs), kk = next(iter(p.t.items()))
                if not b and all(any(zf(q) == zf(Poly.atom(a)) for q in self.nz) for a, e in fs):
                    return False
            return None
        if k == "pos":
            p = self.simp(f[1])
            c = p.constval()
            if c is not None:
                return c > 0
            return self.bools.get(("pos", p))
        if k == "polyeq":
            return self.bools.get(f)
        r = self.bools.get(f)
        return r

    def assume(self, f, record=True):
        """-> list of states (self may be reused)"""
        r = self.decide(f)
        if r is False:
            return []
        k = f[0]
        if k == "t":
            return [self]
        if record and r is None:
            self.path = self.path + (f,)
        if r is True:
            return [self]
        if k == "ge":
            self.add_lin(f[1])
            return [self] if self.feasible() else []
        if k == "eq":
            self.add_lin(f[1])
            self.add_lin(-f[1])
            return [self] if self.feasible() else []
        if k == "and":
            out = []
            for s in self.assume(f[1], False):
                out += s.assume(f[2], False)
            return out
        if k == "or":
            a = self.copy().assume(f[1], False)
            out = list(a)
            for s in self.copy().assume(fnot(f[1]), False):
                out += s.assume(f[2], False)
            return out
        if k == "z":
            p = self.simp(f[1])
            self.add_zero(p)
            return [self]
        if k == "pos":
            p = self.simp(f[1])
            self.bools[("pos", p)] = True
            self.add_nz(p)
            return [self]
        if k == "pres":
            self.bools[f] = True
            return [self]
        if k == "not":
            g = f[1]
            if g[0] == "eq":
                out = []
                for h in (g[1] - 1, -g[1] - 1):
                    s = self.copy()
                    s.add_lin(h)
                    if s.feasible():
                        out.append(s)
                return out
            if g[0] == "and":
                return self.assume(for_(fnot(g[1]), fnot(g[2])), False)
            if g[0] == "or":
                return self.assume(fand(fnot(g[1]), fnot(g[2])), False)
            if g[0] == "z":
                self.add_nz(self.simp(g[1]))
                return [self]
            if g[0] == "pos":
                self.bools[("pos", self.simp(g[1]))] = False
                return [self]
            if g[0] == "pres":
                self.bools[g] = False
                # an absent key has coefficient zero
                try:
                    c = self.coef(g[1], g[2])
                    d = self.decide(zf(c))
                    if d is False:
                        return []
                    if d is None:
                        self.add_zero(self.simp(c))
                except Split:
                    pass
                return [self]
            self.bools[g] = False
            return [self]
        self.bools[f] = True
        return [self]

    def add_zero(self, p):
        if not p.t:
            return
        if p not in self.zs:
            self.zs = self.zs + (p,)
            q = self._source(p)
            if q is not None and q.t:
                self.add_zero(q)

    def add_nz(self, p):
        if p.constval() is None and p not in self.nz:
            self.nz = self.nz + (p,)
            q = self._source(p)
            if q is not None and q.t:
                self.add_nz(q)

    def add_zr(self, P, lo, hi):
        z = (P, lo, hi)
        if z in self.zr:
            return
        for w in self.zr:
            # adjacent ranges are one range
            if w[0] == P and ((w[2] is not None and w[2] == lo) or (hi is not None and w[1] == hi)):
                self.zr = tuple(x for x in self.zr if x != w)
                return self.add_zr(P, w[1], hi) if w[2] is not None and w[2] == lo else self.add_zr(P, lo, w[2])
        self.zr = self.zr + (z,)
        if P in self.sup and (lo is not None or hi is not None) and self.covered(P, Lin(0), self.sup[P]):
            self.add_zr(P, None, None)
        # the same range of the content P was copied from
        d = self.defs.get(P)
        if d is not None and len(d.t) == 1:
            (b, fs), k = next(iter(d.t.items()))
            if len(b) == 1 and len(fs) == 2:
                v, l = b[0]
                ex = dict(fs).get(X)
                els = [a for a, e in fs if a[0] == "el" and e == Lin(1) and a[2] == Lin.sym(v)]
                if els and ex is not None and ex.coef(v) == 1 and not (l is not None and v in l.syms()):
                    s = ex - Lin.sym(v)
                    lo2 = None if lo is None else lo - s
                    hi2 = None if hi is None else hi - s
                    if l is not None:
                        if lo2 is None or self.entails(l - lo2):
                            lo2 = l
                        elif not self.entails(lo2 - l):
                            return
                    self.add_zr(els[0][1], lo2, hi2)

    def _source(self, p):
        """coefficient behind a named content's element"""
        if len(p.t) != 1:
            return None
        (b, fs), k = next(iter(p.t.items()))
        if b or len(fs) != 1 or fs[0][0][0] != "el" or fs[0][1] != Lin(1) or fs[0][0][1] not in self.defs:
            return None
        try:
            return self.coef(self.defs[fs[0][0][1]], fs[0][0][2])
        except (Split, GiveUp):
            return None

    def covered(self, P, lo, hi):
        """is P zero on [lo, hi)?  hi None = everything above lo"""
        pos = lo
        used = set()
        if not any(z[0] == P for z in self.zr) and hi is None:
            return False
        for _ in range(12):
            if hi is not None and self.entails(pos - hi):
                return True
            nxt = None
            for z in self.zr:
                (Q, a, b) = z
                if Q == P and z not in used and (a is None or self.entails(pos - a)):
                    if b is None:
                        return True
                    if self.entails(b - pos):
                        used.add(z)
                        nxt = b
                        break
            if nxt is None:
                for q in self.zs:
                    if len(q.t) != 1:
                        continue
                    (b, fs), kk = next(iter(q.t.items()))
                    if b or len(fs) != 1 or fs[0][0][0] != "el" or fs[0][0][1] != P:
                        continue
                    x = fs[0][0][2]
                    if self.entails(x - pos) and self.entails(pos - x):
                        nxt = pos + 1
                        break
            if nxt is None:
                return False
            pos = nxt
        return False

    # ---- coefficient knowledge
    def el_zero(self, P, i):
        s = self.sup.get(P)
        if s is not None or P in self.sup:
            if self.entails(-i - 1):
                return True
            if s is not None and self.entails(i - s):
                return True
        for (Q, lo, hi) in self.zr:
            if Q == P and (lo is None or self.entails(i - lo)) and (hi is None or self.entails(hi - 1 - i)):
                return True
        return False

    def rules(self):
        """orient zero facts as rewrite rules atom -> Poly"""
        out = {}
        for p in self.zs:
            p = p.map_atoms(lambda a: out.get(a)) if out else p
            best = None
            for (b, fs), k in p.t.items():
                if b or k not in (1, -1) or len(fs) != 1 or fs[0][1] != Lin(1):
                    continue
                a = fs[0][0]
                if a[0] in ("X",):
                    continue
                rest = Poly({kk: vv for kk, vv in p.t.items() if kk != (b, fs)})
                if a in rest.atoms():
                    continue
                r = (a[0] not in ("lv", "el"), repr(a))
                if best is None or r < best[0]:
                    best = (r, a, rest.scale(-k))
            if best:
                a, v = best[1], best[2]
                out = {x: y.map_atoms(lambda t: v if t == a else None) for x, y in out.items()}
                out[a] = v
        return out

    def simp(self, p):
        if not p.t:
            return p
        rules = self.rules() if self.zs else {}
        for _ in range(8):
            q = self._simp1(p, rules)
            if q == p:
                return p
            p = q
        return p

    def _simp1(self, p, rules):
        out = ZERO
        keep = {}

        def add(b, fs, k):
            n = keep.get((b, fs), 0) + k
            if n:
                keep[(b, fs)] = n
            else:
                keep.pop((b, fs), None)
        mono = [next(iter(z.t)) for z in self.zs if len(z.t) == 1]
        mono = [dict(m[1]) for m in mono if not m[0] and len(m[1]) > 1 and all(e.isconst() for _, e in m[1])]
        for (b, fs), k in p.t.items():
            if mono:
                d = dict(fs)
                if any(all(a in d and d[a].isconst() and d[a].c >= e.c for a, e in m.items()) for m in mono):
                    continue
            bv = {v for v, _ in b}
            dead = False
            repl = None
            for i, (a, e) in enumerate(fs):
                if a[0] == "el":
                    if not (bv & set(a[2].syms())):
                        if self.el_zero(a[1], a[2]):
                            dead = True
                            break
                if a in rules and not (bv and (bv & _atom_syms(a))):
                    repl = (i, rules[a])
                    break
                if a[0] in ("div", "fn", "ite", "coef"):
                    a2 = self._simp_atom(a, rules)
                    if a2 is not a:
                        repl = (i, a2)
                        break
                    if a[0] == "ite" and e == Lin(1) and a[2] == ONE and a[3] == ZERO:
                        r = self._guard(b, fs, i, k)
                        if r is not None:
                            out = out + r
                            dead = True
                            break
            if dead:
                continue
            if repl is not None:
                i, r = repl
                e = fs[i][1]
                rest = fs[:i] + fs[i + 1:]
                if isinstance(r, tuple):
                    r = Poly.atom(r)
                if not r.t:
                    # zero to a power
                    if e.isconst():
                        if e.c > 0:
                            continue
                        out = out + Poly({(b, fs): k})
                        continue
                    hit = False
                    for v, lo in b:
                        c = e.coef(v)
                        if c in (1, -1):
                            sol = (e - Lin.sym(v) * c) * (-c)
                            if lo is not None:
                                d = self.decide(ge(sol - lo))
                                if d is None:
                                    break
                                if d is False:
                                    hit = True
                                    break
                            nb = tuple(x for x in b if x[0] != v)
                            t = Poly_term(nb, (), k, Poly({((), rest): 1}).subst({v: sol}))
                            out = out + t
                            hit = True
                            break
                    if hit:
                        continue
                    d = self.decide(ge(e - 1))
                    if d is True:
                        continue
                    d0 = self.decide(eq(e))
                    if d0 is True:
                        out = out + Poly({(b, rest): k})
                        continue
                    add(b, fs, k)
                    continue
                out = out + Poly_term(b, rest, k, ring.ppow(r, e))
                continue
            if b:
                nb = []
                changed = False
                for v, lo in b:
                    if lo is None:
                        for P in self._anch(v, fs):
                            n = self.sup.get(P)
                            if n is not None and not n.isconst() and self.entails(-n):
                                dead = True
                            elif self.zr and P in self.sup and self.covered(P, Lin(0), n):
                                dead = True
                        if dead:
                            break
                    if lo is not None:
                        r = self._clip(v, lo, fs, bv)
                        if r == "drop":
                            dead = True
                            break
                        if r != "same":
                            changed = True
                            lo = r[0]
                    nb.append((v, lo))
                if dead:
                    continue
                if changed:
                    d = {}
                    ring.add_term(d, tuple(nb), fs, k)
                    out = out + Poly(d)
                    continue
                if len(b) == 1:
                    ex = self._fullconst(b, fs, k)
                    if ex is not None:
                        out = out + ex
                        continue
            add(b, fs, k)
        res = Poly(keep) + out
        return self._peel(res)

    def _simp_atom(self, a, rules):
        ch = False
        o = []
        for x in a:
            if isinstance(x, Poly):
                y = self.simp(x)
                if y != x:
                    ch = True
                o.append(y)
            else:
                o.append(x)
        if a[0] == "ite":
            d = self.decide(a[1]) if not any(s.startswith("\u03b2") for s in syms_any(a[1], set()) if isinstance(s, str)) else None
            if d is True:
                return o[2]
            if d is False:
                return o[3]
        if not ch:
            return a
        return ring.mk_atom(tuple(o))

    def _guard(self, b, fs, i, k):
        """[[cond]] as a factor: conditions implied by the other factors are
        dropped, conditions on a summation index become its bound"""
        a = fs[i][0]
        rest = fs[:i] + fs[i + 1:]
        kill = set(killers(rest))
        embs = [x[1] for x, _ in rest if x[0] == "emb"]
        bv = {v: lo for v, lo in b}
        c = guard_simp(a[1], kill, embs)
        if c[0] == "t":
            return Poly({(b, rest): k})
        if c[0] == "f":
            return ZERO
        one = lambda f: ("ite", f, ONE, ZERO)
        if c[0] == "and":
            return Poly_term(b, rest, k, Poly.atom(one(c[1])) * Poly.atom(one(c[2])))
        if c[0] == "or":
            p = Poly.atom(one(c[1])) + Poly.atom(one(c[2])) - Poly.atom(one(c[1])) * Poly.atom(one(c[2]))
            return Poly_term(b, rest, k, p)
        if c[0] == "not" and c[1][0] in ("eq", "and", "or"):
            return Poly({(b, rest): k}) - Poly_term(b, rest, k, Poly.atom(one(c[1])))
        if c[0] in ("ge", "eq"):
            l = c[1]
            vs = [v for v in bv if l.coef(v)]
            if not vs:
                d = self.decide(c)
                if d is None:
                    return None if c == a[1] else Poly_term(b, rest, k, Poly.atom(one(c)))
                return Poly({(b, rest): k}) if d else ZERO
            if len(vs) == 1 and l.coef(vs[0]) in (1, -1) and not any(isinstance(s, tuple) and vs[0] in ring._lsyms(Lin.sym(s)) for s in l.syms()):
                v = vs[0]
                lo = bv[v]
                sg = l.coef(v)
                t = (l - Lin.sym(v) * sg) * (-sg)      # v >= t (sg 1) | v <= t (sg -1) | v = t
                if lo is not None and set(lo.syms()) & set(bv):
                    return None
                if any(l2 is not None and v in l2.syms() for _, l2 in b):
                    return None
                if c[0] == "eq":
                    if lo is not None:
                        d = self.decide(ge(t - lo))
                        if d is None:
                            return None
                        if not d:
                            return ZERO
                    nb = tuple(x for x in b if x[0] != v)
                    return Poly_term(nb, (), k, Poly({((), rest): 1}).subst({v: t}))
                full_ = Poly({(b, rest): k})
                cut = t if sg == 1 else t + 1
                if lo is not None:
                    d = self.decide(ge(cut - lo))
                    if d is None:
                        return None
                    if not d:
                        cut = lo
                up = self._relo(b, rest, k, v, cut)
                return up if sg == 1 else full_ - up
        if c != a[1]:
            return Poly_term(b, rest, k, Poly.atom(one(c)))
        return None

    def _anch(self, v, fs):
        V = Lin.sym(v)
        return [P for P, i in killers(fs) if i == V]

    def _clip(self, v, lo, fs, bv):
        if bv & set(lo.syms()):
            return "same"
        Ps = self._anch(v, fs)
        for P in Ps:
            if P in self.sup:
                n = self.sup[P]
                if self.entails(-lo):
                    return (None,)
                if n is not None and self.entails(lo - n):
                    return "drop"
            for (Q, a, b2) in self.zr:
                if Q != P:
                    continue
                if (a is None or self.entails(-a)) and (b2 is None or self.entails(b2 - lo)):
                    return (None,) if b2 is not None else "drop"
                if a is None or self.entails(lo - a):
                    if b2 is None:
                        return "drop"
                    n = self.sup.get(P)
                    if n is not None and self.entails(b2 - n):
                        return "drop"
                    if lo != b2 and self.entails(b2 - lo):
                        return (b2,)
            if P in self.sup and self.zs and self.covered(P, lo, self.sup[P]):
                return "drop"
        return "same"

    def _fullconst(self, b, fs, k):
        """sum over an operand of small constant length -> explicit terms"""
        v, lo = b[0]
        for P in self._anch(v, fs):
            n = self.sup.get(P)
            if n is not None and n.isconst() and n.c <= 8:
                if lo is not None and not lo.isconst():
                    return None
                r = ZERO
                for i in range(max(0, lo.c if lo is not None else 0), n.c):
                    r = r + Poly({((), fs): k}).subst({v: Lin(i)})
                return r
            # upper zero range with constant-size support
            if n is not None and lo is not None:
                d = n - lo
                if d.isconst() and 0 < d.c <= 8:
                    r = ZERO
                    for i in range(d.c):
                        r = r + Poly({((), fs): k}).subst({v: lo + i})
                    return r
            for (Q, a, b2) in self.zr:
                if Q != P or b2 is not None or a is None:
                    continue
                l = lo if lo is not None else Lin(0) if P in self.sup else None
                if l is not None and (a - l).isconst() and 0 < (a - l).c <= 8:
                    r = ZERO
                    for i in range((a - l).c):
                        r = r + Poly({((), fs): k}).subst({v: l + i})
                    return r
        return None

    def _peel(self, p):
        groups = {}
        for (b, fs), k in p.t.items():
            if len(b) == 1:
                groups.setdefault((b[0][0], fs), []).append((b[0][1], k))
        out = None
        for (v, fs), los in groups.items():
            if len(los) == 1 and not (los[0][0] is not None and los[0][0].isconst()):
                continue
            Ps = self._anch(v, fs)
            sup0 = any(P in self.sup for P in Ps)
            for i in range(len(los)):
                lo, k = los[i]
                if lo is None:
                    continue
                if lo.isconst() and sup0 and 0 < lo.c <= 8:
                    # full minus first terms
                    r = Poly({(((v, None),), fs): k}) - Poly({(((v, lo),), fs): k})
                    for c in range(lo.c):
                        r = r - Poly({((), fs): k}).subst({v: Lin(c)})
                    return p + r
                for j in range(len(los)):
                    lo2 = los[j][0]
                    if j == i or lo2 is None:
                        continue
                    d = lo - lo2
                    if d.isconst() and 0 < d.c <= 8:
                        r = Poly({(((v, lo2),), fs): k}) - Poly({(((v, lo),), fs): k})
                        for c in range(d.c):
                            r = r - Poly({((), fs): k}).subst({v: lo2 + c})
                        return p + r
                    if not d.isconst() and repr(lo2) < repr(lo) and self.entails(d) and self.entails(-d):
                        return p + Poly({(((v, lo2),), fs): k}) - Poly({(((v, lo),), fs): k})
        return p

    # ---- generating functions
    def coef(self, p, e):
        """coefficient of X^e"""
        out = ZERO
        for (b, fs), k in p.t.items():
            ex = Lin(0)
            rest = []
            for a, q in fs:
                if a == X:
                    ex = q
                else:
                    rest.append((a, q))
            rest = mul_factors(rest)
            if any(a[0] == "gf" for a, q in fs):
                raise GiveUp("coefficient of an abstract polynomial")
            bv = {v for v, _ in b}
            pick = None
            for v, lo in b:
                if ex.coef(v) in (1, -1):
                    dep = len([s for s in ex.syms() if s in bv])
                    anch = bool(self._anch(v, fs))
                    c = (lo is not None, not anch, dep)
                    if pick is None or c < pick[0]:
                        pick = (c, v, lo)
            if pick is None:
                if bv & set(ex.syms()):
                    return Poly.atom(("coef", p, e))
                d = self.decide(eq(ex - e))
                if d is None:
                    raise Split(eq(ex - e))
                if d:
                    out = out + Poly({(b, rest): k})
                continue
            _, v, lo = pick
            s = ex.coef(v)
            sol = (e - (ex - Lin.sym(v) * s)) * s
            if lo is not None:
                c = sol - lo
                if bv & set(c.syms()):
                    return Poly.atom(("coef", p, e))
                # a zero element needs no decision
                z = Poly({((), rest): 1}).subst({v: sol})
                if not (len(b) == 1 and not self.simp(z).t):
                    d = self.decide(ge(c))
                    if d is None:
                        raise Split(ge(c))
                    if not d:
                        continue
            nb = tuple((x, l.subst({v: sol}) if l is not None else None) for x, l in b if x != v)
            out = out + Poly_term(nb, (), k, Poly({((), rest): 1}).subst({v: sol}))
        return self.simp(out)

    def _max(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        d = a - b
        r = self.decide(ge(d))
        if r is None:
            raise Split(ge(d))
        return a if r else b

    def window(self, p, lo, hi):
        """terms with exponent in [lo, hi); None = unbounded"""
        out = ZERO
        for (b, fs), k in p.t.items():
            ex = Lin(0)
            if any(a[0] == "gf" for a, q in fs):
                raise GiveUp("window of an abstract polynomial")
            for a, q in fs:
                if a == X:
                    ex = q
            bv = {v for v, _ in b}
            pick = None
            for v, l in b:
                if ex.coef(v) in (1, -1) and not ((bv - {v}) & set(ex.syms())):
                    pick = (v, l)
            t = Poly({(b, fs): k})
            if pick is None:
                if bv & set(ex.syms()):
                    raise GiveUp("window of a product")
                okk = True
                for c in ([ex - lo] if lo is not None else []) + ([hi - 1 - ex] if hi is not None else []):
                    d = self.decide(ge(c))
                    if d is None:
                        raise Split(ge(c))
                    if not d:
                        okk = False
                        break
                if okk:
                    out = out + t
                continue
            v, l = pick
            s = ex.coef(v)
            c = ex - Lin.sym(v) * s
            if s == 1:
                nlo = None if lo is None else lo - c
                nhi = None if hi is None else hi - c
            else:
                nlo = None if hi is None else c - hi + 1
                nhi = None if lo is None else c - lo + 1
            l1 = self._max(l, nlo)
            r = self._relo(b, fs, k, v, l1)
            if nhi is not None:
                l2 = self._max(l1, nhi) if l1 is not None else nhi
                r = r - self._relo(b, fs, k, v, l2)
            out = out + r
        return self.simp(out)

    def _relo(self, b, fs, k, v, lo):
        d = {}
        ring.add_term(d, tuple((x, (lo if x == v else l)) for x, l in b), fs, k)
        return Poly(d)

    def expand(self, p, names=None):
        """replace named contents by their definitions"""
        for _ in range(40):
            hit = None
            for (b, fs), k in p.t.items():
                for a, e in fs:
                    if a[0] == "el" and a[1] in self.defs and (names is None or a[1] in names):
                        hit = (b, fs, k, a, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            b, fs, k, a, e = hit
            p = p - Poly({(b, fs): k}) + self._expand_term(b, fs, k, a, e)
        raise GiveUp("expand")

    def _expand_term(self, b, fs, k, a, e):
        content = self.defs[a[1]]
        if not (e.isconst() and e.c >= 1):
            raise GiveUp("expand exponent")
        rest = mul_factors([(x, q) for x, q in fs if x != a] + ([(a, e - 1)] if e.c > 1 else []))
        bv = {v for v, _ in b}
        idx = a[2]
        if not (bv & set(idx.syms())):
            c = self.coef(content, idx)
            return Poly_term(b, rest, k, c)
        v = None
        for w, lo in b:
            if idx == Lin.sym(w):
                v, vlo = w, lo
        if v is None:
            for w, lo in b:
                if idx.coef(w) in (1, -1) and lo is None:
                    v, vlo = w, lo
                    break
            if v is None:
                raise GiveUp("expand index")
        sgn = idx.coef(v)
        off = idx - Lin.sym(v) * sgn
        out = ZERO
        ob = tuple(x for x in b if x[0] != v)
        for (cb, cf), ck in content.t.items():
            ex = Lin(0)
            crest = []
            for x, q in cf:
                if x == X:
                    ex = q
                else:
                    crest.append((x, q))
            m = {w: Lin.sym(fresh("b")) for w, _ in cb}
            cb2 = [(m[w].t[0][0], lo.subst(m) if lo is not None else None) for w, lo in cb]
            ex = ex.subst(m)
            cr = Poly({((), mul_factors(crest)): 1}).subst(m)
            # idx = ex  =>  v = sgn*(ex - off)
            sol = (ex - off) * sgn
            if vlo is not None:
                cond = sol - vlo
                w = None
                for x, l in cb2:
                    if cond.coef(x) == 1:
                        w = x
                if w is not None:
                    bound = -(cond - Lin.sym(w))
                    if any(x in bound.syms() for x, _ in cb2) or (set(bound.syms()) & {x for x, _ in ob}):
                        raise GiveUp("expand bound")
                    cb2 = [(x, self._max(l, bound) if x == w else l) for x, l in cb2]
                elif any(cond.coef(x) for x, _ in cb2):
                    raise GiveUp("expand bound")
                else:
                    d = self.decide(ge(cond))
                    if d is None:
                        raise Split(ge(cond))
                    if not d:
                        continue
            body = Poly({((), rest): 1}).subst({v: sol})
            ob2 = tuple((x, l.subst({v: sol}) if l is not None else None) for x, l in ob)
            out = out + Poly_term(ob2 + tuple(cb2), (), k * ck, body * cr)
        return out

    def norm(self, p):
        p = self.simp(p)
        q = self.expand(p)
        if q != p:
            q = self.simp(q)
        return q

    def name(self, p, n=None, tag="C"):
        """give the content p a name: returns full(name)"""
        r = plain(p)
        if r is not None:
            return p
        if not p.t:
            return p
        if tag == "C":
            for c, q in self.defs.items():
                if q == p and self.sup.get(c) == n:
                    return ring.full(c)
        c = fresh(tag)
        self.defs[c] = p
        self.sup[c] = n
        return ring.full(c)

    def subst_ints(self, m):
        self.store = {c: sub_value(v, m) for c, v in self.store.items()}
        self.lin = tuple(x for x in (l.subst(m) for l in self.lin) if not (x.isconst() and x.c >= 0))
        self.zs = tuple(p.subst(m) for p in self.zs)
        self.nz = tuple(p.subst(m) for p in self.nz)
        self.zr = tuple((P, lo.subst(m) if lo is not None else None, hi.subst(m) if hi is not None else None) for P, lo, hi in self.zr)
        self.bools = {sub_f(f, m): b for f, b in self.bools.items()}
        self.sup = {k: (v.subst(m) if v is not None else None) for k, v in self.sup.items()}
        self.defs = {k: v.subst(m) for k, v in self.defs.items()}
        self.path = tuple(sub_f(f, m) for f in self.path)
        self.univ = tuple(sub_any(f, m) for f in self.univ)
        if self.late:
            self.late = {k: v.subst(m) for k, v in self.late.items()}
        self._ec = None


def guard_simp(c, kill, embs):
    k = c[0]
    if k == "and":
        return fand(guard_simp(c[1], kill, embs), guard_simp(c[2], kill, embs))
    if k == "or":
        return for_(guard_simp(c[1], kill, embs), guard_simp(c[2], kill, embs))
    if k == "not":
        return fnot(guard_simp(c[1], kill, embs))
    if k == "pres":
        P = plain(c[1]) if isinstance(c[1], Poly) else c[1]
        if P is not None and (P, c[2]) in kill:
            return ("t",)
    if k == "z" and len(c[1].t) == 1:
        (b, fs), n = next(iter(c[1].t.items()))
        if not b and len(fs) == 1 and fs[0][0][0] == "el" and fs[0][1] == Lin(1) and (fs[0][0][1], fs[0][0][2]) in kill:
            return ("f",)
    if k == "eq":
        for e in embs:
            if c[1] == Lin.sym(e) or c[1] == -Lin.sym(e):
                return ("f",)
    return c


def killers(fs):
    """(P, i) such that the product vanishes whenever el(P, i) does"""
    r = []
    for a, e in fs:
        if a[0] == "el":
            r.append((a[1], a[2]))
        elif a[0] == "div" and e == Lin(1):
            common = None
            for (b, nf), k in a[1].t.items():
                if b:
                    common = None
                    break
                ks = set(killers(nf))
                common = ks if common is None else common & ks
            if common:
                r += sorted(common, key=repr)
    return r


def _atom_syms(a):
    u = set()
    ring._asyms(a, u)
    return u


def plain(p):
    """operand name if p is exactly full(name)"""
    if len(p.t) == 1:
        (b, fs), k = next(iter(p.t.items()))
        if k == 1 and len(b) == 1 and b[0][1] is None and len(fs) == 2:
            v = b[0][0]
            d = dict(fs)
            if d.get(X) == Lin.sym(v):
                for a, e in fs:
                    if a[0] == "el" and a[2] == Lin.sym(v) and e == Lin(1):
                        return a[1]
    return None
