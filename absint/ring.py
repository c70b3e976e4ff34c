"""Ring values: formal sums in normal form.

A Poly is a finite integer combination of terms; a term is a product of atoms
raised to affine exponents, summed over zero or more bound index variables, each
running over a half line [lo, oo) or over all integers.  A range sum [lo, hi) is
the difference of two half-line terms, so splitting, merging and shifting ranges
are all plain cancellation of terms.  The distinguished atom X turns a Poly into
a generating function: the content of a Vec (exponent = distance from its end),
of a BTreeMap (exponent = key) and a polynomial (exponent = degree) are the same
kind of object.

Atoms
  ('X',)                the generating variable
  ('sym', n)            a scalar input
  ('el', P, idx)        coefficient of degree idx of operand P (0 outside its support)
  ('pres', P, idx)      1 if key idx is stored in map operand P, else 0
  ('emb', s)            integer symbol s embedded in the ring
  ('div', p, q)         the type's own division
  ('coef', p, e)        coefficient of X^e in p
  ('fn', name, args..)  uninterpreted operation
  ('ite', cond, p, q)
  ('lv', id)            value of a loop-carried cell at a generic iteration
  ('top', id)           unknown
"""
from .lin import Lin, L, skey
from fractions import Fraction
import itertools

X = ("X",)
_ctr = itertools.count()


def fresh(p="s"):
    return "%s%d" % (p, next(_ctr))


def atom_subst(a, m):
    """substitute integer symbols in atom; returns Poly or same atom"""
    k = a[0]
    if k in ("X", "sym", "lv", "top"):
        return a
    if k == "emb":
        if a[1] in m:
            return emb(m[a[1]])
        if isinstance(a[1], tuple):
            from .lin import subst_isym
            n = subst_isym(a[1], m)
            if n != Lin.sym(a[1]):
                return emb(n)
        return a
    out = []
    ch = False
    for x in a:
        if isinstance(x, Lin):
            y = x.subst(m)
        elif isinstance(x, Poly):
            y = x.subst(m)
        elif isinstance(x, tuple):
            y = cond_subst(x, m)
        else:
            y = x
        if y is not x and y != x:
            ch = True
        out.append(y)
    if not ch:
        return a
    return mk_atom(tuple(out))


def mk_atom(a):
    """re-simplify a structured atom; returns atom or Poly"""
    if a[0] == "div":
        return div(a[1], a[2])
    if a[0] == "fn" and a[1] in FOLD:
        r = FOLD[a[1]](*a[2:])
        if r is not None:
            return r
    if a[0] == "ite" and a[2] == a[3]:
        return a[2]
    return a


def cond_subst(c, m):
    """conditions are nested tuples over Lin/Poly"""
    out = []
    for x in c:
        if isinstance(x, (Lin, Poly)):
            out.append(x.subst(m))
        elif isinstance(x, tuple):
            out.append(cond_subst(x, m))
        else:
            out.append(x)
    out = tuple(out)
    return c if out == c else out


def cond_map(c, f):
    out = []
    for x in c:
        if isinstance(x, Poly):
            out.append(x.map_atoms(f))
        elif isinstance(x, tuple):
            out.append(cond_map(x, f))
        else:
            out.append(x)
    return tuple(out)


def _els(a, acc):
    if a[0] in ("el", "pres"):
        acc.append(a)
    for x in a:
        if isinstance(x, Poly):
            for (b, fs) in x.t:
                for at, e in fs:
                    _els(at, acc)
        elif isinstance(x, tuple) and a[0] == "ite":
            _els_c(x, acc)


def _els_c(c, acc):
    for x in c:
        if isinstance(x, Poly):
            for (b, fs) in x.t:
                for at, e in fs:
                    _els(at, acc)
        elif isinstance(x, tuple):
            _els_c(x, acc)


def mul_factors(fs):
    """fs: list of (atom, Lin) -> sorted merged tuple"""
    d = {}
    for a, e in fs:
        if a in d:
            d[a] = d[a] + e
        else:
            d[a] = e
    return tuple(sorted(((a, e) for a, e in d.items() if e != Lin(0)), key=lambda x: (repr(x[0]), repr(x[1]))))


def subst_factors(fs, m):
    """-> (factors tuple, Poly multiplier or None)"""
    out = []
    mult = None
    for a, e in fs:
        e2 = e.subst(m)
        a2 = atom_subst(a, m)
        if isinstance(a2, Poly):
            p = ppow(a2, e2)
            mult = p if mult is None else mult * p
        else:
            out.append((a2, e2))
    return mul_factors(out), mult


def ppow(p, e):
    if e.isconst() and e.c >= 0:
        if e.c > 8 and len(p.t) == 1 and not next(iter(p.t))[0]:
            (_, fs), k = next(iter(p.t.items()))
            return Poly({((), mul_factors([(a, x * e.c) for a, x in fs])): k ** e.c})
        if e.c > 8:
            return Poly.atom(("fn", "pow", p, e))
        r = ONE
        for _ in range(e.c):
            r = r * p
        return r
    # single monomial without sums
    if len(p.t) == 1:
        (b, fs), k = next(iter(p.t.items()))
        if not b and k == 1:
            ok = all(x.isconst() or e.isconst() for _, x in fs)
            if ok:
                return Poly({((), mul_factors([(a, (x * e)) for a, x in fs])): 1})
        if not b and not fs and k == 1:
            return ONE
    return Poly.atom(("fn", "pow", p, e))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    @staticmethod
    def const(k):
        return Poly({((), ()): k} if k else {})

    @staticmethod
    def atom(a, e=None):
        if isinstance(a, Poly):
            return a
        return Poly({((), ((a, e if e is not None else Lin(1)),)): 1})

    def iszero(self):
        return not self.t

    def isconst(self):
        return all(k == ((), ()) for k in self.t)

    def constval(self):
        if not self.t:
            return 0
        if self.isconst():
            return self.t[((), ())]
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for k, v in o.t.items():
            n = d.get(k, 0) + v
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return Poly(d)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({t: v * k for t, v in self.t.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        r = {}
        for (b1, f1), k1 in self.t.items():
            for (b2, f2), k2 in o.t.items():
                if not b1 and not b2:
                    key = ((), mul_factors(f1 + f2))
                    n = r.get(key, 0) + k1 * k2
                    if n:
                        r[key] = n
                    else:
                        r.pop(key, None)
                else:
                    if b2 and b1:
                        m = {v: Lin.sym(fresh("b")) for v, _ in b2}
                        b2n = tuple((m[v].t[0][0], lo.subst(m) if lo is not None else None) for v, lo in b2)
                        f2n, mult = subst_factors(f2, m)
                        assert mult is None or True
                        if mult is not None:
                            f2n, mult = f2, None
                            # renaming never changes structure beyond emb(sym)
                            f2n = tuple((_ren(a, m), e.subst(m)) for a, e in f2)
                    else:
                        b2n, f2n = b2, f2
                    add_term(r, b1 + b2n, mul_factors(tuple(f1) + tuple(f2n)), k1 * k2)
        return Poly(r)

    def subst(self, m):
        if not m or not self.t:
            return self
        r = {}
        for (b, fs), k in self.t.items():
            if b and any(v in m for v, _ in b):
                mm = {s: l for s, l in m.items() if s not in [v for v, _ in b]}
            else:
                mm = m
            f2, mult = subst_factors(fs, mm)
            b2 = tuple((v, lo.subst(mm) if lo is not None else None) for v, lo in b)
            if mult is None and f2 == fs and b2 == b:
                n = r.get((b, fs), 0) + k
                if n:
                    r[(b, fs)] = n
                else:
                    r.pop((b, fs), None)
            elif mult is None:
                add_term(r, b2, f2, k)
            else:
                p = Poly_term(b2, f2, k, mult)
                for kk, vv in p.t.items():
                    n = r.get(kk, 0) + vv
                    if n:
                        r[kk] = n
                    else:
                        r.pop(kk, None)
        return Poly(r)

    def map_atoms(self, f):
        """f(atom) -> None (keep; nested polys are mapped too) or Poly"""
        out = ZERO
        plain = {}
        for (b, fs), k in self.t.items():
            ch = False
            keep = []
            mult = None
            for a, e in fs:
                r = f(a)
                if r is None:
                    a2 = map_nested(a, f)
                    if isinstance(a2, Poly):
                        r = a2
                    else:
                        if a2 is not a:
                            ch = True
                        keep.append((a2, e))
                        continue
                ch = True
                p = ppow(r, e)
                mult = p if mult is None else mult * p
            if not ch:
                n = plain.get((b, fs), 0) + k
                if n:
                    plain[(b, fs)] = n
                else:
                    plain.pop((b, fs), None)
                continue
            if mult is None:
                d = {}
                add_term(d, b, mul_factors(keep), k)
                out = out + Poly(d)
            else:
                out = out + Poly_term(b, mul_factors(keep), k, mult)
        return Poly(plain) + out

    def atoms(self):
        s = set()
        for (b, fs) in self.t:
            for a, e in fs:
                _atoms(a, s)
        return s

    def has(self, kind):
        return any(a[0] == kind for a in self.atoms())

    def syms(self):
        s = set()
        for (b, fs) in self.t:
            bv = {v for v, _ in b}
            u = set()
            for v, lo in b:
                if lo is not None:
                    u |= _lsyms(lo)
            for a, e in fs:
                u |= _lsyms(e)
                _asyms(a, u)
            s |= u - bv
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (b, fs), k in sorted(self.t.items(), key=lambda x: repr(x[0])):
            s = "*".join(show_atom(a) + ("" if e == Lin(1) else "^(%r)" % e) for a, e in fs)
            if k != 1 or not s:
                s = "%s%s" % (k, "*" + s if s else "")
            for v, lo in reversed(b):
                s = "S{%s>=%s}[%s]" % (v, lo if lo is not None else "-oo", s)
            out.append(s)
        return " + ".join(out)


def _lsyms(l):
    u = set()
    for s in l.syms():
        u.add(s)
        if isinstance(s, tuple):
            for x in s:
                if isinstance(x, Lin):
                    u |= _lsyms(x)
    return u


def _asyms(a, u):
    if a[0] == "emb":
        u.add(a[1])
        return
    for x in a:
        if isinstance(x, Lin):
            u |= _lsyms(x)
        elif isinstance(x, Poly):
            u |= x.syms()
        elif isinstance(x, tuple):
            _asyms(x, u)


def _atoms(a, s):
    s.add(a)
    _atoms_in(a, s)


def _atoms_in(a, s):
    for x in a:
        if isinstance(x, Poly):
            s |= x.atoms()
        elif isinstance(x, tuple):
            _atoms_in(x, s)


def _ren(a, m):
    r = atom_subst(a, m)
    if isinstance(r, Poly):
        (k, v), = r.t.items()
        assert v == 1 and not k[0] and len(k[1]) == 1
        return k[1][0][0]
    return r


def show_atom(a):
    if a[0] == "X":
        return "X"
    if a[0] == "sym":
        return a[1]
    if a[0] == "el":
        return "%s[%r]" % (a[1], a[2])
    if a[0] == "emb":
        return "N(%s)" % (a[1],)
    if a[0] == "div":
        return "(%r)/(%r)" % (a[1], a[2])
    return "%s(%s)" % (a[0], ",".join(map(repr, a[1:])))


def map_nested(a, f):
    ch = False
    out = []
    for x in a:
        if isinstance(x, Poly):
            y = x.map_atoms(f)
        elif isinstance(x, tuple):
            y = cond_map(x, f)
        else:
            y = x
        if y is not x and y != x:
            ch = True
        out.append(y)
    if not ch:
        return a
    return mk_atom(tuple(out))


def Poly_term(b, fs, k, mult):
    """sum over b of k*fs*mult (mult may contain b's variables and own sums)"""
    r = {}
    for (b2, f2), k2 in mult.t.items():
        if b2:
            m = {v: Lin.sym(fresh("b")) for v, _ in b2}
            nb2 = tuple((m[v].t[0][0], lo.subst(m) if lo is not None else None) for v, lo in b2)
            nf2 = tuple((_ren(a, m), e.subst(m)) for a, e in f2)
        else:
            nb2, nf2 = b2, f2
        add_term(r, b + nb2, mul_factors(tuple(fs) + tuple(nf2)), k * k2)
    return Poly(r)


def add_term(r, bounds, factors, k):
    for key, kk in canon(bounds, factors, k):
        n = r.get(key, 0) + kk
        if n:
            r[key] = n
        else:
            r.pop(key, None)


def canon(bounds, factors, k):
    if not bounds:
        return [(((), factors), k)]
    work = [(list(bounds), factors, k, 0)]
    out = []
    while work:
        bs, fs, kk, i = work.pop()
        if i == len(bs):
            out.append((_rename(bs, fs), kk))
            continue
        v, lo = bs[i]
        others = {w for w, _ in bs if w != v}
        els = []
        xexp = None
        for a, e in fs:
            if a == X:
                xexp = e
            _els(a, els)
        cands = []
        for a in els:
            c = a[2].coef(v)
            if c in (1, -1):
                rest = a[2] - Lin.sym(v) * c
                dep = any(s in others for s in rest.syms())
                cands.append((dep, a[0], skey(a[1]), repr(rest), c, rest))
        if xexp is not None and xexp.coef(v) in (1, -1) and not cands:
            c = xexp.coef(v)
            rest = xexp - Lin.sym(v) * c
            cands.append((True, "X", "", repr(rest), c, rest))
        if not cands:
            work.append((bs, fs, kk, i + 1))
            continue
        _, _, _, _, c, rest = min(cands, key=lambda z: z[:4])
        if c == 1 and rest == Lin(0):
            work.append((bs, fs, kk, i + 1))
            continue
        w = fresh("b")
        # w = c*v + rest  => v = c*(w - rest)
        m = {v: (Lin.sym(w) - rest) * c}
        f2, mult = subst_factors(fs, m)
        nb = [(x, (l.subst(m) if l is not None else None)) for x, l in bs]
        if c == 1:
            nlo = None if lo is None else lo.subst(m) + rest
            variants = [(nlo, 1)]
        else:
            # v >= lo  <=>  w <= rest - lo
            if lo is None:
                variants = [(None, 1)]
            else:
                variants = [(None, 1), (rest - lo + 1, -1)]
        for nlo, sg in variants:
            b2 = list(nb)
            b2[i] = (w, nlo)
            if mult is None:
                work.append((b2, f2, kk * sg, i + 1))
            else:
                for (b3, f3), k3 in mult.t.items():
                    assert not b3
                    work.append((list(b2), mul_factors(tuple(f2) + tuple(f3)), kk * sg * k3, i + 1))
    return out


def _rename(bs, fs):
    if len(bs) > 1:
        names = [v for v, _ in bs]

        def sig(v):
            m = {w: Lin.sym("?") for w in names if w != v}
            m[v] = Lin.sym("@")
            r = []
            for a, e in fs:
                r.append(repr(_ren_safe(a, m)) + repr(e.subst(m)))
            return "|".join(sorted(r))
        bs = sorted(bs, key=lambda x: (sig(x[0]), repr(x[1])))
    tmp = {v: Lin.sym("\u03b2!%d" % i) for i, (v, _) in enumerate(bs)}
    fin = {"\u03b2!%d" % i: Lin.sym("\u03b2%d" % i) for i in range(len(bs))}

    def rn(l):
        return l.subst(tmp).subst(fin)
    nb = tuple(("\u03b2%d" % i, rn(lo) if lo is not None else None) for i, (v, lo) in enumerate(bs))
    nf = mul_factors([(_ren(_ren(a, tmp), fin), rn(e)) for a, e in fs])
    return (nb, nf)


def _ren_safe(a, m):
    try:
        return _ren(a, m)
    except Exception:
        return a


ZERO = Poly({})
ONE = Poly.const(1)
XP = Poly.atom(X)


def emb(l):
    l = L(l)
    r = Poly.const(l.c)
    for s, k in l.t:
        r = r + Poly.atom(("emb", s)).scale(k)
    return r


def xpow(l):
    l = L(l)
    if l == Lin(0):
        return ONE
    return Poly.atom(X, l)


def sym(n):
    return Poly.atom(("sym", n))


def el(P, idx):
    return Poly.atom(("el", P, L(idx)))


def full(P):
    """generating function of operand P"""
    return Poly({((("\u03b20", None),), mul_factors([(("el", P, Lin.sym("\u03b20")), Lin(1)), (X, Lin.sym("\u03b20"))])): 1})


def sum_half(var, lo, p):
    """sum_{var >= lo} p ; lo None = all integers"""
    r = {}
    v = fresh("b")
    m = {var: Lin.sym(v)}
    q = p.subst(m)
    for (b, fs), k in q.t.items():
        if b:
            mm = {w: Lin.sym(fresh("b")) for w, _ in b}
            b = tuple((mm[w].t[0][0], l.subst(mm) if l is not None else None) for w, l in b)
            fs = tuple((_ren(a, mm), e.subst(mm)) for a, e in fs)
        add_term(r, ((v, lo),) + tuple(b), mul_factors(fs), k)
    return Poly(r)


def sum_range(var, lo, hi, p):
    """sum over [lo, hi); caller guarantees lo <= hi.  hi None = +oo"""
    a = sum_half(var, lo, p)
    if hi is None:
        return a
    return a - sum_half(var, hi, p)


INEXACT = False     # witnesses may use a division that rounds
EUCLID = False      # assume (x - (x/y) y) / y = 0: integers and exact fields


def div(p, q):
    if q == ONE:
        return p
    if p.iszero():
        return ZERO
    if q == Poly.const(-1):
        return -p
    if EUCLID:
        for a in p.atoms():
            if a[0] == "div" and a[2] == q and (p + Poly.atom(a) * q) == a[1]:
                return ZERO
    return Poly.atom(("div", p, q))


def fn(name, *args):
    if name in FOLD:
        r = FOLD[name](*args)
        if r is not None:
            return r
    return Poly.atom(("fn", name) + args)


def _abs(p):
    c = p.constval()
    if c is not None:
        return Poly.const(abs(c))
    return None


def _fix01(p):
    c = p.constval()
    return Poly.const(c) if c in (0, 1) else None


def _round(p):
    c = p.constval()
    return Poly.const(c) if c is not None and c == int(c) else None


def _cbrt(p):
    """an odd function: one sign of the argument is canonical"""
    c = p.constval()
    if c in (-1, 0, 1):
        return Poly.const(c)
    k = min(p.t.items(), key=lambda x: repr(x[0]))[1]
    return -Poly.atom(("fn", "cbrt", -p)) if k < 0 else None


FOLD = {"abs": _abs, "abs_sqrt": _fix01, "sqrt": _fix01, "round": _round, "cbrt": _cbrt}


def times_x(p, l):
    """p * X^l"""
    return p * xpow(l)


def map_exp(p, f):
    """rewrite the X exponent e of every term to f(e)"""
    r = {}
    for (b, fs), k in p.t.items():
        e = Lin(0)
        rest = []
        for a, x in fs:
            if a == X:
                e = x
            else:
                rest.append((a, x))
        ne = f(e)
        if b:
            mm = {w: Lin.sym(fresh("b")) for w, _ in b}
            b = tuple((mm[w].t[0][0], l.subst(mm) if l is not None else None) for w, l in b)
            rest = [(_ren(a, mm), x.subst(mm)) for a, x in rest]
            ne = ne.subst(mm)
        add_term(r, b, mul_factors(rest + [(X, ne)]), k)
    return Poly(r)
