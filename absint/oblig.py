"""Obligations: run a function of the crate in the abstract interpreter on
arbitrary inputs and compare every outcome with the meaning it must have."""
import time
from .lin import Lin, L
from . import ring
from .ring import Poly, ZERO, ONE, X, full, el, sym, fresh, emb, xpow, sum_range
from .values import *
from .state import State, Split, GiveUp, Stats, plain
from .interp import Interp, Out
from .spec import Mk, sem, ispoly, tname, show_ty, POLYS
from .facts import ty_subst
from .decide import prove_zero, exact, exact_poly, find_model, find_state_model, split_run, PROVED, REFUTED, UNKNOWN, short


class Res:
    """verdict of one obligation"""
    __slots__ = ("ob", "label", "verdict", "detail", "where")

    def __init__(self, ob, label, verdict, detail=None, where=None):
        self.ob, self.label, self.verdict, self.detail, self.where = ob, label, verdict, detail, where


class Shape:
    """constant shape of the inputs: lengths, key sets, degrees"""
    LEN = ((3, 3), (1, 3), (3, 1), (2, 2), (0, 2), (2, 0), (4, 2), (2, 5), (1, 1), (5, 5), (0, 0), (6, 3), (8, 2), (9, 9), (2, 7))
    KEYS = (((0, 1, 2), (0, 1, 2)), ((0, 2), (1, 3)), ((0, 1, 2, 3), (0, 1, 2, 3)), ((1,), (0, 1, 2)), ((), (0, 1)), ((0, 1), ()), ((2, 5), (2, 3)), ((0, 1, 3), (1, 2, 4)))
    INT = (0, 1, 2, 3, 5, 4, 7)

    def __init__(self, i):
        import random
        self.c = None
        if isinstance(i, tuple):
            self.c, i = i
        self.i = i
        self.r = random.Random(1000 + i)
        self.n = 0
        self.cs = {}

    def length(self):
        c, i = self.c, self.i
        self.n += 1
        if c is not None:
            t = ((c + 1, 3), (3, c + 1), (c, c), (c + 2, c), (c + 1, c + 1), (2, c + 2))[i % 6]
            return min(300, t[(self.n - 1) % 2])
        t = self.LEN[i % len(self.LEN)]
        return t[(self.n - 1) % 2]

    def keys(self):
        c, i = self.c, self.i
        self.n += 1
        if c is not None:
            hi = (max(c - 1, 0), c, c + 1, c + 2)
            t = (((0, 1, 2), hi), (hi, (0, 1, 2)), (hi, hi), ((0, c), (0, c)), ((c,), (0, 1)), ((0, 1), (c,)), (range(min(c, 40) + 2), (0, 2)), ((0, 1), range(min(c, 40) + 2)))[i % 8]
        else:
            t = self.KEYS[i % len(self.KEYS)]
        return frozenset(t[(self.n - 1) % 2])

    def int(self, ty):
        self.n += 1
        if self.c is not None:
            v = self.c + (0, 1, -1, 2)[(self.i + self.n) % 4] if (self.i + self.n) % 5 else self.r.randint(0, 3)
            v = max(v, 0)
        else:
            v = self.INT[(self.i + 3 * self.n) % len(self.INT)] if self.i < 12 else self.r.randint(0, 9)
        if ty.startswith("i") and (self.i + self.n) % 3 == 1:
            v = -v
        return v

    def mask(self, n):
        return None

    def const(self, n):
        k = repr(n)
        if k not in self.cs:
            self.n += 1
            self.cs[k] = self.length()
        return self.cs[k]

    def sample(self, xs, k):
        return self.r.sample(xs, k)


class Gaps(Shape):
    """long inputs, nearly all of whose coefficients are zero: the stored ones lie around a constant of the code"""

    def __init__(self, c, i):
        Shape.__init__(self, (c, i))
        self.r.seed(7919 * c + i)
        self.small = i % 3          # which operand is short, 2: none

    def length(self):
        self.n += 1
        if (self.n - 1) % 2 == self.small:
            return (1, 2, 3)[self.i % 3]
        return min(self.c + self.r.choice((1, 2, 3, 5)), 1100)

    def spots(self):
        c, r = self.c, self.r
        k = {x for x in (0, 1, 2, c - 1, c, c + 1, c + 2) if r.random() < 0.45}
        return k or {c}

    def keys(self):
        self.n += 1
        if (self.n - 1) % 2 == self.small:
            return frozenset(((0,), (0, 1), (1, 3))[self.i % 3])
        return frozenset(x for x in self.spots() if x >= 0)

    def mask(self, n):
        """degrees of a dense input with a coefficient that is not zero"""
        if n < 6:
            return None
        k = {x for x in self.spots() if 0 <= x < n}
        k |= {n - 1 - x for x in self.spots() if 0 <= x < n and self.r.random() < 0.5}
        if self.i % 4:
            k.add(n - 1)
        return k

    def __repr__(self):
        return "gaps around %d (%d)" % (self.c, self.i)


class Pair(Shape):
    """the first operand with one set of stored degrees, the second with another"""

    def __init__(self, a, b):
        Shape.__init__(self, 0)
        self.ab = tuple(a), tuple(b)
        n, m = (max(x, default=-1) + 1 for x in self.ab)
        self.rounds = n + m + n * m - 1

    def length(self):
        self.n += 1
        return max(self.ab[(self.n - 1) % 2], default=-1) + 1

    def keys(self):
        self.n += 1
        return frozenset(self.ab[(self.n - 1) % 2])

    def __repr__(self):
        return "degrees %s / %s" % self.ab


class Fixed(Shape):
    """every sequence of one length, every map with one key set"""

    def __init__(self, n, ks=()):
        Shape.__init__(self, 0)
        self.len, self.ks = n, frozenset(ks)

    def length(self):
        return self.len

    def keys(self):
        return self.ks


def constants(F, fids):
    """integer constants the analysed functions compare or compute with"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("c") == "int" and str(x.get("v", "")).lstrip("-").isdigit():
                out.add(abs(int(x["v"])))
            if x.get("k") == "switch" and (x.get("dt") or {}).get("k") == "int":
                for v in x.get("v", []):
                    if str(v[0]).lstrip("-").isdigit():
                        out.add(abs(int(v[0])))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for fid in fids:
        f = F.fns.get(fid)
        if f and f.get("body"):
            walk(f["body"]["blocks"])
    return sorted(c for c in out if 5 < c <= 100000)


def shapes(F):
    for i in range(6):
        yield i
    cs = constants(F, Stats.fns)[:8]
    for i in range(12):
        for c in cs:
            yield Gaps(c, i)
    for c in (17, 40, 70, 135, 270):
        for i in range(3):
            yield Gaps(c, i)
    for i in range(6, SHAPES):
        yield i
    for c in cs:
        for i in range(12):
            yield (c, i)


class Ctx:
    """one function analysed on symbolic inputs"""

    def __init__(self, F, fid, types=None, names="abcd", contracts=None, prep=None, subst=None, budget=None, total=False, shape=None, post=None, peel=False, rounds=None, whole=None):
        self.F, self.fid = F, fid
        self.f = F.fns[fid]
        self.I = Interp(F, contracts=contracts)
        self.I.repr_total = total
        self.I.peel = peel
        if shape is not None:
            self.I.shape, self.I.ks0 = shape if isinstance(shape, Shape) else Shape(shape), frozenset()
            self.I.deadline = time.process_time() + SHAPE_RUN
            self.I.rounds = rounds
            if whole:
                # every partition of this shape: (seconds)
                self.I.deadline = time.process_time() + 3 * whole
                self.I.follow = 4000
        if budget:
            self.I.budget = budget
        self.st0 = State()
        mk = Mk(self.I, self.st0)
        body = self.f["body"]
        tys = [body["locals"][i + 1] for i in range(body["argc"])]
        self.subst = subst or {}
        if self.subst:
            tys = [ty_subst(t, self.subst) for t in tys]
        self.tys = tys
        self.ret_ty = body["locals"][0]
        self.args = [mk.make(t, names[i]) for i, t in enumerate(tys)]
        self.A = [sem(self.I, self.st0, a) for a in self.args]
        if prep:
            prep(self)
        self.init = self.st0.copy()
        self.outs = self.I.call_fn(self.st0, fid, list(self.args), dict(self.subst), 0)
        if post:
            self.outs = [y for o in self.outs for y in post(self, o)]

    def final(self, o, i):
        """meaning of argument i after the call"""
        return sem(self.I, o.st, self.args[i])

    def val(self, o, i):
        return self.I.deref(o.st, self.args[i])

    def lin(self, i):
        v = self.I.deref(self.init, self.args[i])
        return v.l if isinstance(v, IntV) else None

    def ring(self, i):
        v = self.I.deref(self.init, self.args[i])
        return v.p if isinstance(v, RingV) else None


def prove_form(st, f):
    """formula f holds on the partition?"""
    def go(s):
        return s.decide(f)
    try:
        s0 = st.copy()
        bad = s0.assume(fnot(f), True)
    except Split as e:
        bad = [st]
    except GiveUp as e:
        return UNKNOWN, str(e)
    worst = (PROVED, None)
    for s in bad:
        if not s.feasible():
            continue
        if contradictory(s):
            continue
        why = exact(s)
        ps = polys_of(f)
        for p in ps:
            why = why or exact_poly(s, p)
        if why is None:
            w = find_state_model(s)
            if w is not None:
                w.pop("difference", None)
                return REFUTED, w
            worst = (UNKNOWN, "no witness for the negation of %s" % showf(f))
        else:
            worst = (UNKNOWN, why)
    return worst


def same_elements(s, p):
    """rewrite elements of p whose index equals that of an element known zero"""
    zels = [a for z in s.zs for a in z.atoms() if a[0] == "el"]
    m = {}
    for a in p.atoms():
        if a[0] == "el":
            for b in zels:
                if b[1] == a[1] and b[2] != a[2] and s.entails(a[2] - b[2]) and s.entails(b[2] - a[2]):
                    m[a] = Poly.atom(b)
    return p.map_atoms(lambda a: m.get(a)) if m else p


def prove_nonzero(st, p):
    """some coefficient of p is non-zero on the partition"""
    if not st.feasible() or contradictory(st):
        return PROVED, None
    cand = []
    for q in st.nz:
        for a in q.atoms():
            if a[0] == "el":
                cand.append(a[2])
                for b in p.atoms():
                    pass
    for q in [p] + list(st.nz):
        for (b, fs), k in q.t.items():
            e = dict(fs).get(X, Lin(0))
            if not b and e not in cand:
                cand.append(e)
    cand = list(dict.fromkeys(cand))[:6]
    for f, b in st.bools.items():
        if f[0] == "polyeq" and not b:
            for sg in (1, -1):
                try:
                    z = st.norm(p - (f[1] - f[2]).scale(sg))
                except (Split, GiveUp):
                    continue
                if not z.t:
                    return PROVED, None

    if some_nonzero(st, p, cand):
        return PROVED, None

    def order(s):
        for i in cand:
            for j in cand:
                if i is not j and s.decide(ge(i - j)) is None:
                    raise Split(ge(i - j))
        return s
    try:
        parts = [x for x, _ in split_run(st.copy(), order)]
    except GiveUp:
        parts = [st]
    if all(some_nonzero(s, p, cand) for s in parts):
        return PROVED, None
    why = exact(st, p)
    if why is not None:
        return UNKNOWN, why
    w = find_model(st, p, want=lambda g: not g)
    if w is not None:
        w["difference"] = "none"
        return REFUTED, w
    return UNKNOWN, "not shown non-zero: %s" % short(p)


def some_nonzero(s, p, cand):
    if not s.feasible():
        return True
    for e in cand:
        try:
            if all(v for _, v in split_run(s.copy(), lambda x: nz_at(x, p, e))):
                return True
        except (GiveUp, RecursionError):
            continue
    return False


def nz_at(s, p, e):
    if not s.feasible():
        return True
    q = s.norm(s.coef(p, e))
    if s.decide(zf(q)) is False:
        return True
    t = s.copy()
    try:
        bad = t.assume(zf(q))
    except Split:
        return False
    return all(not x.feasible() or contradictory(x) for x in bad)


def deep_norm(s, p):
    """normal form, also of the operands of divisions"""
    m = {}
    for a in p.atoms():
        if a[0] == "div":
            x, y = s.norm(a[1]), s.norm(a[2])
            if x != a[1] or y != a[2]:
                q = ring.div(x, y)
                m[a] = q if isinstance(q, Poly) else Poly.atom(q)
    if m:
        p = p.map_atoms(lambda a: m.get(a))
    return s.norm(p)


def contradictory(s):
    """a non-zero fact whose polynomial normalises to zero"""
    for p in s.nz:
        p = same_elements(s, p)
        try:
            if all(not q.t for _, q in split_run(s.copy(), lambda x: deep_norm(x, p))):
                return True
        except (GiveUp, RecursionError):
            pass
    if s.zs and s.nz:
        t = s.copy()
        t.zs = ()
        try:
            zz = set()
            for p in s.zs:
                q = t.norm(p)
                zz |= {q, -q}
            if any(t.norm(p) in zz for p in s.nz):
                return True
        except (GiveUp, Split, RecursionError):
            pass
    for P, lo, hi in s.zr:
        if P in s.defs and s.nz:
            for (b, fs), k in s.defs[P].t.items():
                e = dict(fs).get(X, Lin(0))
                if b or (lo is not None and not s.entails(e - lo)) or (hi is not None and not s.entails(hi - 1 - e)):
                    continue
                try:
                    if s.decide(zf(s.simp(s.coef(s.defs[P], e)))) is False:
                        return True
                except (GiveUp, Split, RecursionError):
                    pass
    for p in s.zs:
        q = s.copy()
        q.zs = tuple(x for x in q.zs if x != p)
        try:
            c = q.norm(p).constval()
        except (GiveUp, Split, RecursionError):
            continue
        if c is not None and c != 0:
            return True
    return False


def polys_of(f):
    out = []
    if isinstance(f, Poly):
        return [f]
    if isinstance(f, tuple):
        for x in f:
            out += polys_of(x)
    return out


def showf(f):
    k = f[0]
    if k == "ge":
        return "%s >= 0" % (f[1],)
    if k == "eq":
        return "%s = 0" % (f[1],)
    if k == "z":
        return "%s = 0" % (f[1],)
    if k == "not":
        return "not(%s)" % showf(f[1])
    if k in ("and", "or"):
        return "(%s %s %s)" % (showf(f[1]), k, showf(f[2]))
    if k == "pos":
        return "%s > 0" % (f[1],)
    return str(f)


def check_items(st, items):
    """items: ("zero", Poly) | ("form", f) | ("fail", why) | ("unknown", why)"""
    worst = (PROVED, None)
    for it in items:
        if it[0] == "sub":
            # clauses about a sub-partition: (state, items)
            if not it[1].feasible() or contradictory(it[1]):
                continue
            v, d = check_items(it[1], it[2])
        elif it[0] == "zero":
            v, d = prove_zero(st, it[1])
        elif it[0] == "judged":
            # zero suffices; a witness has to convince judge(model, value of the polynomial)
            v, d = prove_zero(st, it[1], witness=False)
            if v != PROVED and exact(st, it[1]) is None:
                w = find_model(st, it[1], judge=it[3])
                if w is not None:
                    v, d = REFUTED, w
        elif it[0] == "form":
            v, d = prove_form(st, it[1])
        elif it[0] == "nonzero":
            v, d = prove_nonzero(st, it[1])
        elif it[0] == "unknown":
            v, d = UNKNOWN, it[1]
        elif it[0] == "witness":
            # found by the specification: an input on which the formulas of the path hold
            v, d = REFUTED, it[1]
        elif it[0] == "fail":
            if not st.feasible() or contradictory(st):
                continue
            why = exact(st)
            if why is None:
                w = find_state_model(st)
                if w is None:
                    v, d = UNKNOWN, "no witness that the partition is reachable: %s" % it[1]
                else:
                    w["reason"] = it[1]
                    w.pop("difference", None)
                    v, d = REFUTED, w
            else:
                v, d = UNKNOWN, why
        else:
            raise ValueError(it[0])
        if v == REFUTED:
            d = dict(d) if isinstance(d, dict) else {"detail": d}
            if len(it) > 2:
                d["clause"] = it[2]
            return v, d
        if v == UNKNOWN:
            worst = (v, d)
    return worst


SHAPES = 24
SHAPE_SECONDS = 15
SHAPE_RUN = 5
OB_SECONDS = 60


def run_ob(F, prop, fid, spec, label=None, refine=True, cand=None, **kw):
    """-> [Res]: one per outcome partition.  An obligation the general analysis leaves
    undecided is analysed again on trace partitions of constant shape, where every
    loop is followed: a violation found there is exact."""
    if kw.pop("euclid", False):
        ring.EUCLID = True
        try:
            return run_ob(F, prop, fid, spec, label, refine=refine, cand=cand, **kw)
        finally:
            ring.EUCLID = False
    res = _run_ob(F, prop, fid, spec, label, **kw)
    if not refine or all(r.verdict == PROVED for r in res) or any(r.verdict == REFUTED for r in res):
        return res
    if any(r.verdict == UNKNOWN and "carried value" in str(r.detail) for r in res):
        alt = _run_ob(F, prop, fid, spec, label, peel=True, **kw)
        if all(r.verdict == PROVED for r in alt):
            return alt
    t0 = time.process_time()
    for i in list(cand(F) if cand else shapes(F)):
        if time.process_time() - t0 > SHAPE_SECONDS:
            break
        try:
            if isinstance(i, Gaps):
                i = Gaps(i.c, i.i)
            for r in _run_ob(F, prop, fid, spec, label, shape=i, **(dict(kw, rounds=i.rounds) if isinstance(i, Pair) else kw)):
                if r.verdict == REFUTED:
                    if isinstance(r.detail, dict):
                        r.detail["shape"] = i if isinstance(i, (int, tuple)) else repr(i)
                    return res + [r]
        except Exception:
            continue
    return res


# what the interpreter raises on a construct it has no model for
OUTSIDE = (GiveUp, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, MemoryError)


def judge_items(st, items):
    try:
        return check_items(st, items)
    except OUTSIDE as e:
        return UNKNOWN, "clause not decided: %s" % e


def _run_ob(F, prop, fid, spec, label=None, **kw):
    """-> [Res]: one per outcome partition"""
    f = F.fns[fid]
    name = "%s (%s)" % (f["path"], f["span"])
    res = []
    try:
        c = Ctx(F, fid, **kw)
    except OUTSIDE as e:
        return [Res(name, label or "analysis", UNKNOWN, "outside the analysed fragment: %s" % e)]
    except RecursionError:
        return [Res(name, label or "analysis", UNKNOWN, "recursion depth")]
    outs, t1 = c.outs, time.process_time()
    if c.I.shape is not None:
        outs = sorted(outs, key=lambda o: len(o.st.path))
    for o in outs:
        if c.I.shape is not None and (time.process_time() - t1 > (kw.get("whole") or SHAPE_RUN) or any(r.verdict == REFUTED for r in res)):
            c.I.dropped += 1
            break
        if c.I.shape is None and time.process_time() - t1 > OB_SECONDS:
            res.append(Res(name, label, UNKNOWN, "time budget of the obligation", where(o)))
            break
        try:
            items = list(spec(c, o))
        except Split as e:
            parts = None
            try:
                parts = split_run(o.st.copy(), lambda s: list(spec(c, Out(o.k, s, o.v))))
            except OUTSIDE as e2:
                res.append(Res(name, label, UNKNOWN, "specification: %s" % e2, where(o)))
                continue
            for s, items in parts:
                v, d = judge_items(s, items)
                res.append(Res(name, label, v, d, where(o)))
            continue
        except OUTSIDE as e:
            res.append(Res(name, label, UNKNOWN, "specification: %s" % e, where(o)))
            continue
        v, d = judge_items(o.st, items)
        res.append(Res(name, label, v, d, where(o)))
    if not c.outs:
        res.append(Res(name, label, UNKNOWN, "no outcome"))
    if kw.get("whole") and c.I.dropped:
        res.append(Res(name, label, UNKNOWN, "%d partitions of this shape not explored" % c.I.dropped))
    return res


def where(o):
    if o.k == "panic":
        return "panic %s" % (showpanic(o.v),)
    return "returns when %s" % (" and ".join(showf(f) for f in o.st.path[:8]) or "always")


def showpanic(v):
    if isinstance(v, dict):
        return "%s in %s, line %s" % (v.get("kind"), v.get("fn", "?"), v.get("ln", "?"))
    return str(v)


def panics(o):
    return ("fail", "panics: %s" % showpanic(o.v), "must return a value")


# ------------------------------------------------------------------ discovery
def impls(F, *traits):
    """(impl, trait name, self type, rhs type, {method: fid})"""
    for did, im in sorted(F.impls.items(), key=lambda x: int(x[0][1:]) if x[0][1:].isdigit() else 0):
        t = im["trait"]
        if not t or t.rsplit("::", 1)[-1] not in traits:
            continue
        ms = {n: d for n, d in im["items"] if d in F.fns and F.fns[d].get("body")}
        ta = im["targs"]
        yield im, t.rsplit("::", 1)[-1], ta[0], (ta[1] if len(ta) > 1 else ta[0]), ms


def strip(t):
    while t.get("k") == "ref":
        t = t["t"]
    return t


def numty(t):
    return strip(t).get("k") in ("param", "int", "float")


def inherent(F, *names):
    for fid, f in F.fns.items():
        if f.get("body") and f["kind"] != "closure" and "closure#" not in f["path"] and f["name"] in names:
            p = f.get("parent")
            if p in F.impls and F.impls[p]["trait"]:
                continue
            yield fid, f
