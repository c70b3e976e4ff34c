"""Deciding that two meanings agree on a partition: by normal form, then
coefficient by coefficient; a disagreement is only reported together with a
concrete assignment that satisfies every fact of the partition."""
import random
import time
from fractions import Fraction
from .lin import Lin, L, feasible, skey
from . import ring
from .ring import Poly, ZERO, ONE, X, full, el, fresh
from .values import *
from .state import State, Split, GiveUp, Stats

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"


CLOCK = [None]      # end of the time allowed for one clause


def split_run(st, fn, depth=0):
    """fn(state) -> value; on Split partitions; returns list of (state, value)"""
    if CLOCK[0] is not None and time.process_time() > CLOCK[0]:
        raise GiveUp("proof budget")
    snap = st.copy()
    try:
        return [(st, fn(st))]
    except Split as s:
        if depth > 12:
            raise GiveUp("split depth")
        out = []
        for g in (s.f, fnot(s.f)):
            for x in snap.copy().assume(g):
                out += split_run(x, fn, depth + 1)
        return out


def prove_zero(st, p, witness=True):
    """-> (verdict, detail)"""
    old = CLOCK[0]
    if old is None:
        CLOCK[0] = time.process_time() + CLAUSE_SECONDS
    try:
        return _prove_zero(st, p, witness)
    finally:
        CLOCK[0] = old


CLAUSE_SECONDS = 10


def _prove_zero(st, p, witness=True):
    try:
        parts = split_run(st.copy(), lambda s: s.norm(p))
    except (GiveUp, RecursionError) as e:
        parts = [(st, p)]
    worst = (PROVED, None)
    for s, q in parts:
        if not q.t:
            continue
        q = unify_exps(s, q)
        if not q.t or (s.late and settled_late(s, q)) or pointwise(s, q) or by_relations(s, q):
            continue
        if by_equalities(s, q) or by_multiple(s, q):
            continue
        if exact(s, q) is None and witness:
            w = find_model(s, q)
            if w is not None:
                return REFUTED, w
            worst = (UNKNOWN, "no normal-form proof and no witness: %s" % short(q))
        else:
            worst = (UNKNOWN, exact(s, q) or short(q))
    return worst


def by_multiple(s, q):
    """q is a polynomial multiple of an expression the partition knows to be zero"""
    for z in s.zs:
        z = s.norm(z)
        if len(z.t) >= 2 and divides(z, q):
            return True
    return False


def divides(z, q):
    at = sorted({a for p in (z, q) for (b, fs) in p.t for a, e in fs}, key=repr)

    def vec(m):
        b, fs = m
        if b or any(not e.isconst() for _, e in fs):
            return None
        d = {a: e.c for a, e in fs}
        return tuple(d.get(a, 0) for a in at)
    Z, Q = {}, {}
    for src, dst in ((z, Z), (q, Q)):
        for m, k in src.t.items():
            v = vec(m)
            if v is None:
                return False
            dst[v] = Fraction(k)
    key = lambda v: (sum(v), v)
    lz = max(Z, key=key)
    for _ in range(200):
        if not Q:
            return True
        lq = max(Q, key=key)
        d = tuple(x - y for x, y in zip(lq, lz))
        if any(x < 0 for x in d):
            return False
        k = Q[lq] / Z[lz]
        for v, c in Z.items():
            w = tuple(x + y for x, y in zip(v, d))
            Q[w] = Q.get(w, 0) - k * c
            if not Q[w]:
                del Q[w]
    return False


def by_equalities(s, q):
    """with integers the partition fixes replaced by what they equal"""
    m = {}
    for l in s.lin:
        if l.isconst() or not s.entails(-l):
            continue
        for y, k in l.t:
            if abs(k) == 1 and not isinstance(y, tuple) and y not in m:
                r = (l - Lin.sym(y) * k) * -k
                if not any(x in m for x, _ in r.t) and not any(y in ring._lsyms(v) for v in m.values()):
                    m[y] = r
                    break
    if not m:
        return False
    try:
        t = s.copy()
        t.subst_ints(m)
        q = q.subst(m)
        return all(not r.t or not unify_exps(x, r).t for x, r in split_run(t, lambda x: x.norm(q)))
    except (GiveUp, RecursionError):
        return False


def settled_late(s, q):
    """with the relations loop invariants keep aside"""
    from .oblig import contradictory
    t = s.copy()
    t.defs.update(s.late)
    t.late = {}
    alts = [q]
    for P, d in s.defs.items():
        if any(z[0] == P for z in s.zr) and s.covered(P, Lin(0), s.sup.get(P)):
            alts += [q - d, q + d]
    for a in alts:
        try:
            if all(not r.t for x, r in split_run(t.copy(), lambda x: x.norm(a))):
                return True
        except (GiveUp, RecursionError):
            pass
    return contradictory(s)


def unify_exps(st, q):
    """merge unbound terms whose exponents are equal on the partition"""
    out, keys = {}, []
    for (b, fs), k in q.t.items():
        hit = None
        if not b:
            for key in keys:
                d, e = dict(key[1]), dict(fs)
                if all(not (d.get(a, Lin(0)) - e.get(a, Lin(0))).isconst() or d.get(a, Lin(0)) == e.get(a, Lin(0)) for a in set(d) | set(e)) and \
                        all(st.entails(x) and st.entails(-x) for x in (d.get(a, Lin(0)) - e.get(a, Lin(0)) for a in set(d) | set(e))):
                    hit = key
                    break
            if hit is None:
                keys.append((b, fs))
        key = hit or (b, fs)
        out[key] = out.get(key, 0) + k
    return ring.Poly({k: v for k, v in out.items() if v})


def relations(st):
    """zero ranges of named contents, as equations over the operands"""
    out = []
    zr = list(st.zr)
    for P in dict.fromkeys(z[0] for z in zr):
        if P in st.defs and st.covered(P, Lin(0), st.sup.get(P)):
            zr.insert(0, (P, None, None))
    for (P, lo, hi) in zr:
        if P not in st.defs:
            continue
        try:
            d = st.expand(ring.full(P))
            if lo is None or st.entails(-lo):
                lo = None
            n = st.sup.get(P)
            if hi is not None and n is not None and st.entails(hi - n):
                hi = None
            r = st.simp(st.window(d, lo, hi) if (lo is not None or hi is not None) else d)
        except (Split, GiveUp):
            continue
        if r.t:
            out.append(r)
    for f, b in st.bools.items():
        if f[0] == "polyeq" and b:
            r = st.simp(f[1] - f[2])
            if r.t:
                out.append(r)
    return out


def shifts(q, r):
    """exponent offsets that align a relation with the goal"""
    def exps(p):
        for (b, fs), k in p.t.items():
            e = dict(fs).get(X, Lin(0))
            yield e, tuple(x for x in fs if x[0] != X), len(b)
    out = []
    for e, rest, n in exps(q):
        for e2, rest2, n2 in exps(r):
            if rest == rest2 and n == n2:
                d = e - e2
                if d != Lin(0) and d not in out and not any(isinstance(s, str) and s.startswith("\u03b2") for s in d.syms()):
                    out.append(d)
    return out[:4]


def by_relations(st, q):
    rel = relations(st)
    rel += [r * ring.xpow(d) for r in list(rel) for d in shifts(q, r)]
    for _ in range(4):
        hit = False
        for r in rel:
            for s in (1, -1):
                try:
                    z = st.norm(q + r.scale(s))
                except (Split, GiveUp):
                    continue
                if not z.t or pointwise(st, z):
                    return True
                if len(z.t) < len(q.t):
                    q = z
                    hit = True
                    break
        if not hit:
            return False
    return False


def short(q):
    r = repr(q)
    return r if len(r) < 300 else r[:300] + "..."


def pointwise(st, q):
    """every coefficient is zero"""
    e = Lin.sym(fresh("e"))
    s = st.copy()
    s.add_lin(e)

    def go(x):
        c = x.norm(x.coef(q, e))
        if not c.t:
            return True
        c = use_univ(x, c)
        if x.norm(c).t:
            raise GiveUp("not zero")
        return True
    try:
        return all(v for _, v in split_run(s, go))
    except (GiveUp, RecursionError):
        return False


def use_univ(st, c):
    """instantiate universally quantified zero facts on the atoms of c"""
    for (k, lo, hi, p) in st.univ:
        guard = None
        if len(p.t) == 1:
            (b0, f0), k0 = next(iter(p.t.items()))
            if not b0 and len(f0) == 1 and f0[0][0][0] == "ite" and f0[0][0][3] == ZERO:
                guard, p = f0[0][0][1], f0[0][0][2]
        els = [a for a in p.atoms() if a[0] == "el" and a[2].coef(k) in (1, -1)]
        for a in els:
            for b in c.atoms():
                if b[0] == "el" and b[1] == a[1]:
                    s = a[2].coef(k)
                    sol = (b[2] - (a[2] - Lin.sym(k) * s)) * s
                    inst = p.subst({k: sol})
                    for f in (ge(sol - lo), ge(hi - 1 - sol)) + ((sub_any(guard, {k: sol}),) if guard else ()):
                        d = st.decide(f)
                        if d is None:
                            raise Split(f)
                        if not d:
                            break
                    else:
                        st.add_zero(st.simp(inst))
    return st.simp(c)


def exact(st, *ps):
    """reason why a concrete witness would not be conclusive, or None"""
    if st.approx:
        return "approximate: %s" % "; ".join(dict.fromkeys(st.approx))
    for p in ps:
        r = exact_poly(st, p)
        if r:
            return r
    return None


OKFN = ("pow", "abs", "round:f32", "round:f64")


def to_float(q, ty):
    """nearest float (ties to even): mantissa of 24 or 53 bits, exponent unbounded"""
    bits = 24 if ty == "f32" else 53
    if q == 0:
        return Fraction(0)
    n, e = abs(q), 0
    while n >= 1 << bits:
        n, e = n / 2, e + 1
    while n < 1 << (bits - 1):
        n, e = n * 2, e - 1
    r = Fraction(round(n)) * Fraction(2) ** e
    return r if q > 0 else -r



def coarse(q):
    """nearest number with three significant bits: a division that rounds"""
    if q == 0:
        return q
    n, e = abs(q), 0
    while n >= 8:
        n, e = n / 2, e + 1
    while n < 4:
        n, e = n * 2, e - 1
    r = Fraction(round(n)) * Fraction(2) ** e
    return r if q > 0 else -r


def exact_poly(st, p):
    for a in p.atoms():
        if a[0] in ("lv", "top"):
            return "unknown value %r" % (a,)
        if a[0] == "fn" and a[1] not in OKFN and not typed_cast(a):
            return "uninterpreted %s" % a[1]
    return None


def prim(name):
    """machine type in the name of a typed coefficient"""
    if isinstance(name, str) and ":" in name:
        t = name.rsplit(":", 1)[1]
        if t in ("f32", "f64") or t in INT_RANGE and t != "char":
            return t
    return None


def typed_cast(a):
    return a[1].startswith("as_") and (a[1][3:] in INT_RANGE or a[1][3:] in ("f32", "f64")) and all(
        x[0] in ("el", "sym") and prim(x[1]) for x in a[2].atoms())


def pool_of(t):
    """sample values of a machine type, all representable in it"""
    if t in INT_RANGE:
        lo, hi = INT_RANGE[t]
        return [1, 2, 3, hi, hi - 1, hi // 2 + 1] + ([-1, -2, lo + 1] if lo < 0 else [])
    m = 1 << (23 if t == "f32" else 52)
    return [1, 2, -3, -1, Fraction(1, 2), Fraction(-5, 2), Fraction(-3, 2), Fraction(-1, 2), m + 1, Fraction(m + 1, m), (m + 1) << 60]


# ------------------------------------------------------------------ models
class NoModel(Exception):
    pass


W = 14


def _nz(f):
    def g(a, b):
        if b == 0:
            raise NoModel("division by zero")
        return f(a, b)
    return g


# integer operations without a linear meaning: opaque to the proofs, computed in a witness
EVALOPS = {"BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b, "BitXor": lambda a, b: a ^ b,
           "Rem": _nz(lambda a, b: a % b), "Div": _nz(lambda a, b: a // b)}


class Model:
    def __init__(self, st, rnd):
        self.st = st
        self.r = rnd
        self.ints = {}
        self.els = {}
        self.sy = {}
        self.pres = {}
        self.atoms = {}
        self.cache = {}
        self.rules = {}
        self.app = {}
        self.wide = False
        self.div = "field"
        self.zeroish = rnd.random() < 0.4
        self.pool = [-3, -2, -1, 1, 2, 3, 5]
        self.W = W
        self.until = float("inf")
        self.near = ()

    def widen(self, big):
        """indices up to the integers and constants involved are enumerated"""
        m = max([9] + [abs(v) for v in self.ints.values()])
        if not self.st.sup and not self.st.zr:
            return
        if m <= 9 and big <= 9:
            return
        if m > 700:
            # only the lengths of sequences have to be enumerated
            m = max([9] + [self.lin(n) for n in self.st.sup.values() if n is not None])
            if m > 700:
                raise NoModel("range")
            if m <= 9 and big <= 9:
                return
        self.W = max(W, m + 6, min(big, 600) + 6)
        self.near = {b + d for b in list(self.ints.values()) + [big] for d in (-2, -1, 0, 1)} | set(range(3))

    def window(self, lo, anch):
        if self.near and anch:
            # an anchored operand is zero away from these
            return [i for i in range(lo, self.W + 1) if any(self.elem(a[1], i) for a in anch)]
        return range(lo, self.W + 1)

    def poolfor(self, name):
        t = prim(name) if self.wide else None
        return pool_of(t) if t else self.pool

    def quot(self, n, d):
        if self.div == "trunc":
            if n.denominator != 1 or d.denominator != 1:
                raise NoModel("not an integer")
            q = abs(n) // abs(d)
            return Fraction(q if (n < 0) == (d < 0) else -q)
        if self.div == "round":
            return coarse(n / d)
        return n / d

    # integers
    def lin(self, l):
        t = l.c
        for s, k in l.t:
            t += k * self.isym(s)
        return t

    def isym(self, s):
        if s in self.ints:
            return self.ints[s]
        if isinstance(s, tuple):
            if s[0] == "quot":
                return self.lin(s[1]) // self.lin(s[2])
            if s[0] == "op" and s[1] == "Mul":
                return self.lin(s[2]) * self.lin(s[3])
            if s[0] == "op" and s[1] in EVALOPS:
                a, b = self.lin(s[2]), self.lin(s[3])
                if a < 0 or b < 0:
                    raise NoModel("integer operation")
                return EVALOPS[s[1]](a, b)
            if s[0] == "app":
                key = (s[1], self.lin(s[2]))
                if key not in self.app:
                    self.app[key] = self.r.randint(0, 3)
                return self.app[key]
            if s[0] == "wrap":
                v, lo, hi = self.lin(s[1]), self.lin(s[2]), self.lin(s[3])
                return (v - lo) % (hi - lo + 1) + lo
            if s[0] == "f2i":
                lo, hi = INT_RANGE[s[1]]
                return min(max(int(self.scalar(s[2])), lo), hi)
            raise NoModel("integer %r" % (s,))
        raise NoModel("unassigned %s" % s)

    def elem(self, P, i):
        if P in self.st.defs:
            key = ("def", P)
            if key not in self.cache:
                self.cache[key] = self.poly(self.st.defs[P])
            return self.cache[key].get(i, Fraction(0))
        key = (P, i)
        if key in self.els:
            return self.els[key]
        n = self.st.sup.get(P)
        z = False
        if P in self.st.sup:
            if i < 0 or (n is not None and i >= self.lin(n)) or (n is None and i > 5 and i not in self.near):
                z = True
        elif self.near:
            raise NoModel("support")
        if n is not None and self.near and self.lin(n) > self.W:
            raise NoModel("window")
        if not z and self.near and i not in self.near and self.r.random() < 0.97:
            z = True
        if not z:
            for (Q, lo, hi) in self.st.zr:
                if Q == P and (lo is None or i >= self.lin(lo)) and (hi is None or i < self.lin(hi)):
                    z = True
                    break
        if z:
            v = Fraction(0)
        else:
            v = Fraction(0 if (self.zeroish and self.r.random() < 0.4) else self.r.choice(self.poolfor(P)))
        self.els[key] = v
        return v

    def atom(self, a, env):
        k = a[0]
        if k == "el":
            return self.elem(a[1], self.lin2(a[2], env))
        if k == "gf":
            if a not in self.sy:
                self.sy[a] = Fraction(0 if self.r.random() < 0.2 else self.r.choice((2, 3, 5)))
            return self.sy[a]
        if k == "sym":
            if a[1] not in self.sy:
                if a[1].startswith("float "):
                    self.sy[a[1]] = Fraction(float(a[1][6:]))
                else:
                    self.sy[a[1]] = Fraction(0 if self.r.random() < 0.12 else self.r.choice(self.poolfor(a[1])))
            return self.sy[a[1]]
        if k == "emb":
            return Fraction(env[a[1]] if a[1] in env else self.isym2(a[1], env))
        if k == "div":
            d = self.scalar(a[2], env)
            n = self.scalar(a[1], env)
            if d == 0:
                raise NoModel("division by zero")
            return self.quot(n, d)
        if k == "ite":
            return self.scalar(a[2] if self.form(a[1], env) else a[3], env)
        if k == "fn":
            if a[1] == "pow":
                e = self.lin2(a[3], env)
                v = self.scalar(a[2], env)
                if e < 0 or e > 12 and v not in (0, 1, -1):
                    raise NoModel("pow")
                return v ** e if v not in (0, 1, -1) else Fraction(1) if e == 0 else v if e % 2 else v * v
            if a[1] == "abs":
                return abs(self.scalar(a[2], env))
            if a[1] in ("round:f32", "round:f64"):
                return to_float(self.scalar(a[2], env), a[1][-3:])
            if typed_cast(a):
                v = self.scalar(a[2], env)
                if a[1][3:] not in INT_RANGE:
                    return to_float(v, a[1][3:])
                lo, hi = INT_RANGE[a[1][3:]]
                if v.denominator == 1:
                    return Fraction((v.numerator - lo) % (hi - lo + 1) + lo)
            raise NoModel("fn %s" % a[1])
        if k == "coef":
            p = self.poly(a[1], env)
            return p.get(self.lin2(a[2], env), Fraction(0))
        raise NoModel("atom %s" % k)

    def isym2(self, s, env):
        if isinstance(s, tuple) and env:
            return self.lin2(Lin.sym(s), env)
        return self.isym(s)

    def lin2(self, l, env):
        if not env:
            return self.lin(l)
        t = l.c
        for s, k in l.t:
            if s in env:
                t += k * env[s]
            elif isinstance(s, tuple):
                t += k * self.isym(tuple(Lin(self.lin2(x, env)) if isinstance(x, Lin) else x for x in s))
            else:
                t += k * self.isym(s)
        return t

    def scalar(self, p, env=None):
        d = self.poly(p, env)
        for e in d:
            if e != 0 and d[e] != 0:
                raise NoModel("scalar with X")
        return d.get(0, Fraction(0))

    def poly(self, p, env=None):
        env = env or {}
        out = {}
        for (b, fs), k in p.t.items():
            self.term(list(b), fs, Fraction(k), dict(env), out)
        return {e: c for e, c in out.items() if c}

    def term(self, b, fs, k, env, out):
        if b:
            v, lo = b[0]
            # support of an anchored operand bounds the range
            lo_ = -self.W if lo is None else self.lin2(lo, env)
            anch = [a for a, e in fs if a[0] == "el" and a[2] == Lin.sym(v)]
            if time.process_time() > self.until:
                raise NoModel("time")
            if lo_ > self.W + 1:
                raise NoModel("window")
            for i in self.window(max(lo_, -self.W), anch):
                env[v] = i
                if anch and any(self.elem(a[1], i) == 0 for a in anch):
                    continue
                self.term(b[1:], fs, k, env, out)
            env.pop(v, None)
            return
        e = 0
        c = k
        for a, q in fs:
            n = self.lin2(q, env)
            if a == X:
                e = n
                continue
            v = self.atom(a, env)
            if n < 0:
                if v == 0:
                    raise NoModel("0^negative")
                if n < -700 and v not in (1, -1):
                    raise NoModel("large exponent")
                c *= v ** n if n >= -700 else v if n % 2 else v * v
            else:
                if v in (0, 1, -1):
                    c *= 1 if n == 0 else v if n % 2 else v * v
                    if c == 0:
                        return
                    continue
                if n > (700 if self.near else 30):
                    raise NoModel("large exponent")
                c *= v ** n
            if c == 0:
                return
        out[e] = out.get(e, 0) + c

    # formulas
    def form(self, f, env=None):
        k = f[0]
        env = env or {}
        if k == "t":
            return True
        if k == "f":
            return False
        if k == "ge":
            return self.lin2(f[1], env) >= 0
        if k == "eq":
            return self.lin2(f[1], env) == 0
        if k == "not":
            return not self.form(f[1], env)
        if k == "and":
            return self.form(f[1], env) and self.form(f[2], env)
        if k == "or":
            return self.form(f[1], env) or self.form(f[2], env)
        if k == "z":
            return not self.poly(f[1], env)
        if k == "pos":
            return self.scalar(f[1], env) > 0
        if k == "pres":
            from .state import plain
            P = plain(f[1])
            if P is None:
                raise NoModel("pres of expression")
            return self.present(P, self.lin2(f[2], env))
        if k == "nokeys":
            lo = None if f[2] is None else self.lin2(f[2], env)
            hi = None if f[3] is None else self.lin2(f[3], env)
            for i in range(0, self.W + 1):
                if (lo is None or i >= lo) and (hi is None or i < hi) and self.present(f[1], i):
                    return False
            return True
        if k == "polyeq":
            return self.poly(f[1], env) == self.poly(f[2], env)
        if k == "atom":
            if f not in self.atoms:
                self.atoms[f] = self.st.bools.get(f, self.r.random() < 0.5)
            return self.atoms[f]
        raise NoModel("formula %s" % k)

    def present(self, P, i):
        if i < 0:
            return False
        key = (P, i)
        if key not in self.pres:
            if P in self.st.defs:
                raise NoModel("presence in a computed map")
            self.pres[key] = True if self.elem(P, i) != 0 else (self.r.random() < 0.3 and (i <= 5 or i in self.near))
        return self.pres[key]

    def check(self):
        st = self.st
        for l in st.lin:
            if self.lin(l) < 0:
                return False
        for p in st.zs:
            if self.poly(p):
                return False
        for p in st.nz:
            if not self.poly(p):
                return False
        for (P, lo, hi) in st.zr:
            for i in range(-1, self.W + 1):
                if (lo is None or i >= self.lin(lo)) and (hi is None or i < self.lin(hi)) and self.elem(P, i) != 0:
                    return False
        for f, b in st.bools.items():
            if self.form(f) != b:
                return False
        for f in st.path:
            if not self.form(f):
                return False
        for (k, lo, hi, p) in st.univ:
            for i in range(self.lin(lo), min(self.lin(hi), self.W)):
                if self.poly(p, {k: i}):
                    return False
        return True

    def seed_rules(self):
        """satisfy zero facts by assigning the oriented atom"""
        rules = self.st.rules() if self.st.zs else {}
        for a, v in rules.items():
            try:
                if a[0] == "el" and a[1] not in self.st.defs:
                    self.els[(a[1], self.lin(a[2]))] = None
            except NoModel:
                pass
        pend = {k for k, v in self.els.items() if v is None}
        for k in pend:
            del self.els[k]
        for a, v in rules.items():
            if a[0] == "el" and a[1] not in self.st.defs:
                val = self.scalar(v)
                self.els[(a[1], self.lin(a[2]))] = val
            elif a[0] == "sym":
                self.sy[a[1]] = self.scalar(v)
        # present keys asked for
        for f, b in self.st.bools.items():
            if f[0] == "pres":
                from .state import plain
                P = plain(f[1])
                if P is not None:
                    self.pres[(P, self.lin(f[2]))] = b
                    if not b:
                        self.els[(P, self.lin(f[2]))] = Fraction(0)
            if f[0] == "pos" and len(f[1].t) == 1:
                (bb, fs), kk = next(iter(f[1].t.items()))
                if not bb and len(fs) == 1 and fs[0][1] == Lin(1):
                    a = fs[0][0]
                    val = abs(self.r.choice(self.poolfor(a[1]) if a[0] in ("el", "sym") else self.pool)) * (1 if (kk > 0) == b else -1)
                    if a[0] == "el" and a not in rules and a[1] not in self.st.defs:
                        self.els.setdefault((a[1], self.lin(a[2])), Fraction(val))
                    elif a[0] == "sym" and a not in rules:
                        self.sy.setdefault(a[1], Fraction(val))


def all_syms(st, *ps):
    acc = set()
    for l in st.lin:
        acc |= ring._lsyms(l)
    for p in st.zs + st.nz + tuple(ps):
        acc |= p.syms()
    for P, lo, hi in st.zr:
        syms_any((lo, hi), acc)
    for n in st.sup.values():
        if n is not None:
            acc |= ring._lsyms(n)
    for p in st.defs.values():
        acc |= p.syms()
    for f in list(st.bools) + list(st.path):
        syms_any(f, acc)
    for u in st.univ:
        b = set()
        syms_any(u, b)
        acc |= b - {u[0]}
    out = []
    for s in acc:
        if isinstance(s, str) and not s.startswith("\u03b2"):
            out.append(s)
    return sorted(out)


def big_const(st, goal):
    """the largest constant (of a size that can be enumerated) the clause depends on"""
    out = [0]

    def lin(l):
        if abs(l.c) <= 600:
            out.append(abs(l.c))
        for s, k in l.t:
            if abs(k) <= 600:
                out.append(abs(k))
            if isinstance(s, tuple):
                for x in s:
                    if isinstance(x, Lin):
                        lin(x)

    def walk(x, d=0):
        if isinstance(x, Lin):
            lin(x)
        elif isinstance(x, Poly):
            for (b, fs), k in x.t.items():
                for v, l in b:
                    if l is not None:
                        lin(l)
                for a, q in fs:
                    walk(a, d + 1)
                    lin(q)
        elif isinstance(x, (tuple, list)) and d < 6:
            for y in x:
                walk(y, d + 1)
    walk(goal)
    for l in st.lin:
        lin(l)
    walk(tuple(st.zr))
    return max(out)


def wraps(x, out, d=0):
    """values where a narrowing conversion in sight starts to lose bits"""
    if isinstance(x, Lin):
        for s, k in x.t:
            if isinstance(s, tuple):
                if s[0] == "wrap" and s[3].isconst() and s[1].isconst() is False:
                    if len(s[1].t) == 1 and isinstance(s[1].t[0][0], str):
                        out.setdefault(s[1].t[0][0], set()).update((s[3].c + 1, s[3].c - s[2].c + 1))
                for y in s:
                    wraps(y, out, d + 1)
    elif isinstance(x, Poly):
        for (b, fs), k in x.t.items():
            for a, q in fs:
                wraps(a, out, d + 1)
                wraps(q, out, d + 1)
    elif isinstance(x, (tuple, list)) and d < 6:
        for y in x:
            wraps(y, out, d + 1)
    return out


def int_assignments(st, syms, rnd, limit=40, budget=4000, big=0, jump=None):
    """concrete values for integer symbols consistent with the linear facts"""
    quots = [s for l in st.lin for s in l.syms() if isinstance(s, tuple)]
    out = []
    steps = [0]

    def rec(i, cons, asg):
        if len(out) >= limit or steps[0] > budget:
            return
        if i == len(order):
            out.append(dict(asg))
            return
        s = order[i]
        rng = list(range(0, 7)) + [-1, -2, -3, 8, 9]
        if big > 9:
            rng = [big + 1, big + 2, 1, 0, big, 3, big + 4]
        far = []
        if jump and s in jump:
            rng = [v for b in sorted(jump[s]) for v in (b, b + 1)] + rng[:3]
        for l in cons:
            if len(l.t) == 1 and l.t[0][0] == s and abs(l.c) > 9:
                b = -(l.c // l.t[0][1])
                far += [b, b + 1, b - 1]
        if rnd.random() < 0.7 and big <= 9:
            head = rng[:5]
            rnd.shuffle(head)
            rng = head + rng[5:]
        n = 0
        for v in rng + far:
            steps[0] += 1
            c2 = [l.subst({s: Lin(v)}) for l in cons]
            if any(l.isconst() and l.c < 0 for l in c2):
                continue
            if not feasible([l for l in c2 if not l.isconst()]):
                continue
            asg[s] = v
            rec(i + 1, [l for l in c2 if not l.isconst()], asg)
            del asg[s]
            n += 1
            if n >= 4 or len(out) >= limit:
                break
    order = list(syms)
    for t in range(3):
        if t:
            rnd.shuffle(order)
        rec(0, list(st.lin), {})
        limit += 20
        if steps[0] > budget:
            break
    seen = set()
    res = []
    for a in out:
        k = tuple(sorted(a.items()))
        if k not in seen:
            seen.add(k)
            res.append(a)
    return res


def find_model(st, goal, seed=1, want=None, judge=None):
    """assignment satisfying the partition's facts with goal != 0 -> description"""
    rnd = random.Random(seed)
    syms = all_syms(st, goal)
    tries = 0
    wide = "as_" in repr(goal) or "f2i" in repr(goal) or ":f32" in repr(goal) or ":f64" in repr(goal) or any(
        ":f32" in repr(f) or ":f64" in repr(f) for f in list(st.zs) + list(st.nz) + list(st.path) + list(st.bools))
    asgs = int_assignments(st, syms, rnd)
    big = big_const(st, goal)
    if 9 < big <= 600 and judge is None:
        asgs = asgs[:60] + int_assignments(st, syms, rnd, limit=12, budget=600, big=big)
    jump = wraps(goal, {})
    for l in st.lin:
        wraps(l, jump)
    for f in list(st.bools) + list(st.path):
        wraps(f, jump)
    if jump:
        asgs = asgs[:40] + int_assignments(st, syms, rnd, limit=12, budget=600, jump=jump)
    until = time.process_time() + 4
    for asg in asgs:
        for rep in range(8 if len(asgs) > 5 else 64):
            tries += 1
            if tries > 600:
                return None
            m = Model(st, rnd)
            m.ints = asg
            m.until = until
            try:
                m.widen(big)
            except NoModel:
                break
            m.wide = wide
            if (ring.EUCLID or ring.INEXACT) and rep % 2:
                m.div = "trunc"
            elif ring.INEXACT and rep % 4:
                m.div = "round"
                m.pool = [3, 5, 7, 11, 13, -3, -7]
            try:
                m.seed_rules()
                g = m.poly(goal)
                if judge is not None:
                    if not judge(m, g):
                        continue
                elif (not want(g)) if want else (not g):
                    continue
                if m.check():
                    return {"ints": {s: v for s, v in asg.items()},
                            "coefficients": {"%s[%d]" % k: str(v) for k, v in sorted(m.els.items(), key=str) if v and k[0] not in st.defs},
                            "scalars": {k: str(v) for k, v in m.sy.items()},
                            "difference": {"x^%d" % e: str(c) for e, c in sorted(g.items())}}
            except (NoModel, ZeroDivisionError, OverflowError, KeyError):
                continue
    return None


def find_state_model(st, seed=1):
    """assignment satisfying the partition's facts (reachability of a panic etc.)"""
    return find_model(st, ONE, seed)
