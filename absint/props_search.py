"""C18: cubics (closed form); C19: the search for the real roots of higher degrees.

The search for real roots and the classification of a cubic are external (`roots` crate): their answers are
symbols of the analysis, and what the crate asks them, and does with the answers, is compared with the
polynomial in exact arithmetic.  Identities are decided in the field Q(coefficients)(k, u, v), k^2 = D,
u^3 = q + k, v^3 = q - k, u v = s; a violation needs a polynomial on which the formulas of the path hold."""
from decimal import Decimal, getcontext, localcontext
import itertools, random
from .oblig import *
from .props_obs import enum
from .props_arith import panics
from .props_roots import rat, num, cplx, items_of, fieldzero, settle
from . import ring
from .ring import Poly, ONE, ZERO
from .models import RET, OPT

PREC = 200


# ------------------------------------------------------------------ numbers
def root3(x):
    if x == 0:
        return x
    y = abs(x)
    r = (y.ln() / 3).exp() if y else y
    r = r - (r * r * r - y) / (3 * r * r)
    return r if x > 0 else -r


class Bad(Exception):
    pass


def value(p, env):
    t = Decimal(0)
    for (b, fs), k in p.t.items():
        if b:
            raise Bad()
        x = Decimal(k.numerator) / Decimal(k.denominator) if hasattr(k, "numerator") else Decimal(k)
        for a, e in fs:
            if not e.isconst():
                raise Bad()
            y = atom(a, env)
            if e.c < 0 and y == 0:
                raise Bad()
            x *= y ** int(e.c)
        t += x
    return t


def atom(a, env):
    if a in env:
        return env[a]
    if a[0] == "sym" and a[1].startswith("float "):
        return Decimal(a[1][6:])
    if a[0] == "div":
        d = value(a[2], env)
        if abs(d) < Decimal("1e-30"):
            raise Bad()
        return value(a[1], env) / d
    if a[0] == "fn" and len(a) == 3:
        x = value(a[2], env)
        if abs(x) < Decimal("1e-60"):
            x = Decimal(0)
        if a[1] == "abs_sqrt":
            return abs(x).sqrt()
        if a[1] == "sqrt":
            if x < 0:
                raise Bad()
            return x.sqrt()
        if a[1] == "abs":
            return abs(x)
        if a[1] == "cbrt":
            return root3(x)
        if a[1] == "round":
            r = x.to_integral_value(rounding="ROUND_HALF_UP")
            return r
    raise Bad()


EPS, GAP = Decimal("1e-25"), Decimal("1e-20")


def holds(f, env):
    k = f[0]
    if k in ("z", "pos"):
        v = value(f[1], env)
        if EPS < abs(v) < GAP:
            raise Bad()
        return abs(v) <= EPS if k == "z" else v > EPS
    if k == "not":
        return not holds(f[1], env)
    if k == "and":
        return holds(f[1], env) and holds(f[2], env)
    if k == "or":
        return holds(f[1], env) or holds(f[2], env)
    if f == TRUE:
        return True
    if f == FALSE:
        return False
    if k in ("ge", "eq") and f[1].isconst():
        return f[1].c >= 0 if k == "ge" else f[1].c == 0
    raise Bad()


def witness(st, samples, broken):
    """a polynomial of `samples` (environments) on which every formula of the path holds and broken(env)"""
    if exact(st) is not None:
        return None
    if any(f[0] not in ("z", "pos", "not", "and", "or", "ge", "eq") for f in st.path):
        return None
    with localcontext() as c:
        c.prec = PREC
        for env in samples():
            try:
                if all(holds(f, env) for f in st.path) and broken(env):
                    return {"scalars": {show_atom(a): "%.12g" % v for a, v in env.items()}}
            except Bad:
                continue
            except ArithmeticError:
                continue
    return None


def show_atom(a):
    return str(Poly.atom(a))


def away(p):
    return lambda env: abs(value(p, env)) > GAP


def claims(st, samples, todo):
    """todo: [(polynomial that must vanish, proved?, clause)]"""
    for p, ok, clause in todo:
        if ok():
            yield ("zero", ZERO, clause)
            continue
        w = witness(st, samples, away(p))
        if w is None:
            yield ("unknown", "not shown: %s" % clause)
        else:
            yield ("witness", w, clause)


def fails(st, samples, why, clause):
    w = witness(st, samples, lambda env: True)
    if w is None:
        yield ("unknown", "no polynomial found that reaches this: %s" % why)
    else:
        w["reason"] = why
        yield ("witness", w, clause)


# ------------------------------------------------------------------ the field of the cubic
def coefs3(c):
    st = c.init
    return [st.coef(c.A[0], Lin(i)) for i in (3, 2, 1, 0)]


def arg4(c):
    return [c.ring(i) for i in range(4)]


def terms3(c):
    return [c.cs.get(i, ZERO) for i in (3, 2, 1, 0)]


def one_atom(p):
    if len(p.t) == 1:
        ((b, fs), k), = p.t.items()
        if not b and k == 1 and len(fs) == 1 and fs[0][1] == Lin(1):
            return fs[0][0]
    return None


def rule(N, mono, n, d):
    """rewrite mono -> n/d in N, up to a factor d; -> (N', changed)"""
    out, rest = ZERO, ZERO
    for (b, fs), k in N.t.items():
        e = {a: x for a, x in fs}
        if all(a in e and e[a].isconst() and e[a].c >= m for a, m in mono.items()):
            q = Poly.const(k)
            for a, x in fs:
                y = x - mono.get(a, 0)
                if not (y.isconst() and y.c == 0):
                    q = q * Poly.atom(a, y)
            out = out + q
        else:
            rest = rest + Poly({(b, fs): k})
    if out.iszero():
        return N, False
    return rest * d + out * n, True


def atoms_in(p, acc):
    for (b, fs), k in p.t.items():
        for a, e in fs:
            if a[0] == "div":
                atoms_in(a[1], acc)
                atoms_in(a[2], acc)
            elif a[0] == "fn":
                if a not in acc:
                    for x in a[2:]:
                        if isinstance(x, Poly):
                            atoms_in(x, acc)
                    acc.append(a)
    return acc


def same(p, q):
    n, d = rat(p - q)
    return n.iszero()


def tower(cf):
    """the coefficients by Cardano's numbers: b = -3aP, c = 6aR, d = -6aPR - 2a(Q - P^3); -> (map, Q, S, D)"""
    a, b, c, d = cf
    P, Q, R = (ring.sym("\u00a7" + x) for x in "PQR")
    m = {}
    if b.iszero():
        P = ZERO
    if c.iszero():
        R = ZERO
    P3 = P * P * P
    if d.iszero():
        Q = P3 - (P * R).scale(3)
    for x, y in ((b, (a * P).scale(-3)), (c, (a * R).scale(6)), (d, (a * P * R).scale(-6) - (a * (Q - P3)).scale(2))):
        if not x.iszero():
            m[one_atom(x)] = y
    S = P * P - R.scale(2)
    return m, Q, S, Q * Q - S * S * S


def vanishes(p, cf, signs=None):
    """p = 0 in the field of the cubic with coefficients cf"""
    if any(one_atom(x) is None and not x.iszero() for x in cf):
        return False
    m, Q, S, D = tower(cf)
    m = dict(m)
    rules = []

    def put(q):
        return q.map_atoms(lambda x: m.get(x))
    fs = atoms_in(p, [])
    cb = [x for x in fs if x[1] == "cbrt"]
    sq = [x for x in fs if x[1] == "abs_sqrt"]
    K, U, V = (ring.sym("\u00a7" + x) for x in "kuv")
    k, u, v = one_atom(K), one_atom(U), one_atom(V)
    inner = [x for x in sq if not any(y[1] == "cbrt" for y in atoms_in(x[2], [])) and same(put(x[2]), D)]
    outer = [x for x in sq if x not in inner]
    if len(inner) > 1 or len(outer) > 1 or len(cb) > 2:
        return False
    if inner:
        m[inner[0]] = K if not D.iszero() else ZERO
        rules.append(({k: 2}, D))
    if not inner and D.iszero():
        K = ZERO
    if cb:
        for x in cb:
            y = put(x[2])
            for z, t in ((Q + K, U), (-Q - K, -U), (Q - K, V), (K - Q, -V)):
                if same(y, z):
                    m[x] = t
                    break
            else:
                return False
        if K.iszero():
            # a double root: u = v
            P = ring.sym("\u00a7P")
            W = P if same(Q, P * P * P) else U
            for x in cb:
                m[x] = W if m[x] in (U, V) else -W
            rules += [({u: 3}, Q), ({u: 2}, S)]
        elif Q.iszero():
            # v = -u
            rules += [({u: 2}, -S), ({k: 1}, -S * U)]
        else:
            rules += [({u: 1, v: 1}, S), ({u: 3}, Q + K), ({v: 3}, Q - K), ({k: 1, v: 1}, S * U * U - Q * V), ({k: 1, u: 1}, Q * U - S * V * V)]
    rules = [(mono, q, ONE) for mono, q in rules]
    if outer:
        W = ring.sym("\u00a7w")
        x = put(outer[0][2])
        m[outer[0]] = W
        sg = signs(outer[0][2]) if signs else None
        if sg is None:
            return False
        n, dd = rat(x if sg > 0 else -x)
        rules.append(({one_atom(W): 2}, n, dd))
    N, _ = rat(put(p))
    for _ in range(200):
        ch = False
        for mono, n, dd in rules:
            N, c1 = rule(N, mono, n, dd)
            ch = ch or c1
        if not ch:
            break
    return N.iszero()


def multiple(st, p, ws, cf, signs, samples):
    """p = l * a * w * z for a polynomial z that vanishes on this path"""
    zs = [f[1] for f in st.path if f[0] == "z" and one_atom(f[1]) is None]
    for z in zs:
        for w in ws:
            y = cf[0] * w * z
            for n, d in ((1, 4), (-1, 4), (1, 1), (-1, 1), (1, 2), (-1, 2)):
                if vanishes(p.scale(d) - y.scale(n), cf, signs):
                    return True
    return False


# ------------------------------------------------------------------ cubics
NAMES = ("No", "One", "Two", "Three")


def ask_cubic(log):
    """the external closed form: its answer is sorted and without repetitions"""
    def con(I, st, args):
        vs = [I.deref(st, x) for x in args]
        out = []
        for i in (1, 2, 3):
            x = st.copy()
            x.store[("log", "cubic")] = Arr(tuple(vs) + (IntV(i),))
            out.append(Out("ret", x, Agg("roots::Roots", i, (Arr([RingV(ring.sym("r%d:f64" % j)) for j in range(1, i + 1)]),))))
        return out
    return con


def R(j):
    return ring.sym("r%d:f64" % j)


def cubic_samples(cf, kind, rng=None):
    """coefficients with the number of distinct real roots the closed form announces"""
    ats = [one_atom(x) if not x.iszero() else None for x in cf]

    def gen():
        r = random.Random(7)
        for n in range(600):
            a = r.choice([1, 1, 2, -1, -3])
            kd = kind if kind is not None else r.choice([1, 2])
            q = r.choice([1, 1, 2, 4])
            x, y, z = (Decimal(r.randint(-6, 6)) / q for _ in range(3))
            if r.random() < 0.25:
                x = Decimal(0)
            if r.random() < 0.2:
                y = -x
            if kd == 3:
                x, y, z = sorted((x, y, z))
                if len({x, y, z}) < 3:
                    continue
                e = [-(x + y + z), x * y + y * z + z * x, -x * y * z]
                rs = [x, y, z]
            elif kd == 2:
                if x == y:
                    continue
                e = [-(x + x + y), x * x + x * y * 2, -x * x * y]
                rs = sorted((x, y))
            elif r.random() < 0.2:
                e = [-3 * x, 3 * x * x, -x * x * x]
                rs = [x]
            else:
                # (t - x)(t^2 + f t + g), f^2 < 4 g
                f = r.choice([x, y, Decimal(0), Decimal(r.randint(-3, 3))])
                g = f * f / 4 + abs(z) + Decimal(r.choice([1, 2, 5])) / q
                if r.random() < 0.2:
                    g = f * x if f * x > f * f / 4 else g
                e = [f - x, g - x * f, -x * g]
                rs = [x]
            co = [Decimal(a)] + [a * t for t in e]
            env, ok = {}, True
            for at, v in zip(ats, co):
                if at is None:
                    ok = ok and v == 0
                else:
                    env[at] = v
            if not ok:
                continue
            for j, v in enumerate(rs):
                env[one_atom(R(j + 1))] = v
            yield env
    return gen


def cubicspec(coefs, wrap=False):
    def spec(cx, o):
        st = o.st
        cf = coefs(cx)
        if any(x is None for x in cf):
            yield ("unknown", "coefficients")
            return
        cf = [st.norm(x) for x in cf]
        if cf[0].iszero() or settle(st, cf[0]):
            return
        cf = [ZERO if x.iszero() or (one_atom(x) is None and st.decide(zf(x)) is True) else x for x in cf]
        if coefs is coefs3 and all(x.iszero() for x in cf[1:]):
            return      # a power of x: C17
        log = st.store.get(("log", "cubic"))
        kind = log.items[4].l.c if log is not None else None
        sm = cubic_samples(cf, kind)
        if o.k != "ret":
            why = panics(o)
            if why[0] != "fail":
                yield why
                return
            for i in fails(st, sm, why[1], "looking for roots does not panic"):
                yield i
            return
        if log is not None:
            asked = [x.p if isinstance(x, RingV) else None for x in log.items[:4]]
            if None in asked:
                yield ("unknown", "question %r" % (asked,))
                return
            for x, y in list(zip(asked, cf))[1:]:
                z = x * cf[0] - y * asked[0]
                for i in claims(st, sm, [(z, lambda z=z: rat(z)[0].iszero(), "the closed form is asked about this polynomial")]):
                    yield i
        v = cx.I.deref(st, o.v)
        if wrap:
            if not (isinstance(v, Agg) and v.k == OPT):
                yield ("unknown", "result %r" % (v,))
                return
            if v.v == 0:
                yield ("unknown", "left to the search")
                return
            v = cx.I.deref(st, v.fs[0])
        e = enum(cx, v)
        if e is None:
            yield ("unknown", "result %r" % (v,))
            return
        n, fs = e
        if n in ("ManyRealRoots", "ManyComplexRoots", "OnlyRealRoots"):
            fs = items_of(cx, o, fs[0])
            if fs is None:
                yield ("unknown", "roots %r" % (e,))
                return
        elif n in ("NoRoots", "InfiniteRoots", "NoRootsFound"):
            for i in fails(st, sm, "answers %s" % n, "a cubic has three roots"):
                yield i
            return
        if "Complex" in n:
            zs = [cplx(cx, o, x) for x in fs]
        else:
            zs = [num(cx, o, x) for x in fs]
            zs = [(x, ZERO) if x is not None else None for x in zs]
        if None in zs:
            yield ("unknown", "roots %r" % (fs,))
            return
        if len(zs) != 3:
            for i in fails(st, sm, "%d roots are listed" % len(zs), "a cubic has three roots"):
                yield i
            return
        if n == "OnlyRealRoots":
            for i in fails(st, sm, "answers OnlyRealRoots", "all three roots are listed"):
                yield i
            return
        if kind == 3:
            # three distinct real roots: the ones found
            want = [R(j) for j in (1, 2, 3)]
            left = [x for x in zs]
            for w in want:
                hit = [x for x in left if same(x[0], w) and x[1].iszero()]
                if hit:
                    left.remove(hit[0])
            if left:
                def broken(env):
                    xs = sorted(value(x[0], env) for x in zs)
                    ys = sorted(env[one_atom(w)] for w in want)
                    return any(abs(x - y) > GAP for x, y in zip(xs, ys)) or any(abs(value(x[1], env)) > GAP for x in zs)
                w = witness(st, sm, broken)
                yield ("witness", w, "the three real roots are reported") if w else ("unknown", "roots of three")
            return

        def cadd(x, y):
            return x[0] + y[0], x[1] + y[1]

        def cmul(x, y):
            return x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]

        def signs(D):
            p = ("pos", st.simp(D))
            d = st.decide(p)
            if d is None:
                if st.decide(zf(st.norm(D))) is True:
                    return 1
                return None
            return 1 if d else -1
        a, b, c, d = cf
        x, y, z = zs
        A = (a, ZERO)
        todo = []
        for want, got, cl in ((b, cmul(A, cadd(cadd(x, y), z)), "the roots add up to -b/a"),
                              (-c, cmul(A, cadd(cadd(cmul(x, y), cmul(y, z)), cmul(z, x))), "the pairs of roots multiply to c/a"),
                              (d, cmul(A, cmul(x, cmul(y, z))), "the roots multiply to -d/a")):
            for p in (got[0] + want, got[1]):
                todo.append((p, lambda p=p: vanishes(p, cf, signs) or multiple(st, p, [ONE] + [q[0] for q in zs], cf, signs, cubic_samples(cf, 1)), cl))
        for i in claims(st, sm, todo):
            yield i
    return spec


def C18(F, tier):
    P = "C18"

    def named(end):
        return [(fid, f) for fid, f in F.fns.items() if f["path"].endswith(end) and f.get("body")]
    def search(I, st, args):
        return [Out("panic", st, "a cubic is left to the numeric search")]
    con = {"extern:find_roots_cubic": ask_cubic(None), "extern:find_roots_sturm": search}
    for fid, f in named("find_roots::cubic_roots"):
        if f["body"]["argc"] == 4:
            def lead(c):
                c.st0.add_nz(c.A[0] if isinstance(c.A[0], Poly) else c.I.deref(c.st0, c.args[0]).p)
            yield lambda fid=fid: run_ob(F, P, fid, cubicspec(arg4), "Cardano's formula", prep=lead, refine=False)
    from .props_roots import terms
    sub = [(3,) + tuple(x) for k in range(1, 4) for x in itertools.combinations((2, 1, 0), k)]
    for fid, f in named("find_roots::find_roots_special"):
        for degs in sub:
            yield lambda fid=fid, degs=degs: run_ob(F, P, fid, cubicspec(terms3, True), "cubic with terms %s" % (degs,), prep=terms(degs), contracts=con, refine=False)
    for fid, f in named("::roots"):
        if any(x in f["path"] for x in ("Polynomial::<f64>", "Polynomial<f64>")) and f["body"]["argc"] == 1:
            for sh in ([(0, 1, 2, 3)] if "Sparse" not in f["path"] else [tuple(sorted(x)) for x in sub]):
                yield lambda fid=fid, sh=sh: run_ob(F, P, fid, cubicspec(coefs3), "roots with terms of degree %s" % (sh,), shape=Fixed(len(sh), sh), contracts=con, refine=False)


# ------------------------------------------------------------------ higher degrees
ERR = "bad"


def ask_search(script):
    """the external search: answers the k-th question with script[k] new real roots ("bad": one it could not pin down)"""
    def con(I, st, args):
        v = I.deref(st, args[0])
        log = st.store.get(("log", "search"), Arr(()))
        k = len(log.items)
        st.store[("log", "search")] = Arr(log.items + (v,))
        if k >= len(script):
            return RET(st, Arr([]))
        n = sum(count(x) for x in script[:k])
        out = []
        for x in script[k]:
            if x == ERR:
                out.append(Agg("core::result::Result", 1, (Top("search error"),)))
            else:
                n += 1
                out.append(Agg("core::result::Result", 0, (RingV(R(n)),)))
        return RET(st, Arr(out))
    return con


def count(x):
    return sum(1 for y in x if y != ERR)


NEXT = [Decimal(x) for x in ("1e-2", "-1e-3", "2e-4", "-3e-5", "4e-7", "-2e-8", "1e-10", "0.3", "-0.45", "1e-13")]


def search_samples(ats, degree, script):
    """polynomials a * prod (x - root) * (rest without real roots) whose roots are found in the order of the script"""
    m = sum(count(x) for x in script)

    def gen():
        r = random.Random(11)
        if m < 2:
            # any polynomial with these terms; the search finds one root at most
            for t in range(60):
                p = {d: Decimal(r.choice([1, 2, 3, 5, -1, -2, -4])) / r.choice([1, 1, 2]) for d in ats}
                env = {}
                if m:
                    v = Decimal(r.choice([1, -1, 2, -2, 3]))
                    near = r.random() < 0.4
                    if near:
                        v += r.choice(NEXT)
                    lo = min(p)
                    p[lo] = -sum(c * v ** (d - lo) for d, c in p.items() if d != lo)
                    env[one_atom(R(1))] = v if near else v + r.choice([Decimal(0), Decimal("1e-9"), Decimal("-3e-9")])
                    if p[lo] == 0:
                        continue
                for d, c in p.items():
                    env[ats[d]] = c
                yield env
        if (degree - m) % 2 or degree < m:
            return
        for t in range(400):
            q = r.choice([1, 1, 2, 4])
            lists, ok = [], True
            left = None
            for x in script:
                n = count(x)
                if not n:
                    continue
                if left is None:
                    vs = sorted(r.sample(range(-7, 8), n))
                    vs = [Decimal(v) / q for v in vs]
                    if r.random() < 0.4:
                        # next to a whole number
                        vs = [v + r.choice(NEXT) if r.random() < 0.5 else v for v in vs]
                else:
                    if n > len(left):
                        ok = False
                        break
                    vs = sorted(r.sample(left, n))
                left = vs
                lists += vs
            if not ok:
                continue
            p = [Decimal(r.choice([1, 2, -1, -3]))]
            for v in lists:
                p = [(p[i] if i < len(p) else 0) - (p[i - 1] * v if i else 0) for i in range(len(p) + 1)]
            if (degree - m) % 4 == 0 and r.random() < 0.3:
                for _ in range((degree - m) // 4):
                    g = Decimal(r.randint(1, 5))
                    p = [(p[i] if i < len(p) else 0) + (p[i - 4] * g if i >= 4 else 0) for i in range(len(p) + 4)]
            for _ in range((degree + 1 - len(p)) // 2):
                f, g = Decimal(r.randint(-2, 2)), Decimal(r.randint(2, 5))
                if r.random() < 0.5:
                    f = Decimal(0)
                p = [(p[i] if i < len(p) else 0) + (p[i - 1] * f if 1 <= i <= len(p) else 0) + (p[i - 2] * g if i >= 2 else 0) for i in range(len(p) + 2)]
            env = {}
            for d in range(degree + 1):
                v = p[degree - d]
                if d in ats:
                    env[ats[d]] = v
                elif v != 0:
                    ok = False
            if not ok:
                continue
            exact = r.random() < 0.5
            for j, v in enumerate(lists):
                # what the search finds lies next to the root
                env[one_atom(R(j + 1))] = v if exact else v + r.choice([Decimal(0), Decimal("1e-9"), Decimal("-3e-9")])
            yield env
    return gen


def deflate(p, r):
    """quotient of p (falling degree) by x - r"""
    out, c = [], ZERO
    for x in p[:-1]:
        c = x + c * r
        out.append(c)
    return out


def at(p, x):
    v = ZERO
    for c in p:
        v = v * x + c
    return v


def searchspec(degree, keys, script):
    m = sum(count(x) for x in script)

    def spec(cx, o):
        st = o.st
        cf = {d: st_coef(cx, d) if d in keys else ZERO for d in range(degree + 1)}
        p = [cf[d] for d in range(degree, -1, -1)]
        st = narrow(st)
        if st is None:
            return
        if sum(1 for x in p if not x.iszero()) < 2:
            return
        sm = search_samples({d: one_atom(x) for d, x in cf.items() if not x.iszero()}, degree, script)
        if o.k != "ret":
            why = panics(o)
            if why[0] != "fail":
                yield why
                return
            for i in fails(st, sm, why[1], "looking for roots does not panic"):
                yield i
            return
        log = st.store.get(("log", "search"), Arr(()))
        e = enum(cx, cx.I.deref(st, o.v))
        if e is None:
            yield ("unknown", "result %r" % (o.v,))
            return
        n, fs = e
        if n in ("ManyRealRoots", "OnlyRealRoots"):
            got = items_of(cx, o, fs[0])
            got = None if got is None else [num(cx, o, x) for x in got]
            if got is None or None in got:
                yield ("unknown", "roots %r" % (fs,))
                return
        elif n in ("NoRoots", "InfiniteRoots", "NoRootsFound"):
            got = []
        else:
            for i in fails(st, sm, "answers %s" % n, "the answer lists the real roots"):
                yield i
            return
        want = "NoRoots" if m == 0 else "ManyRealRoots" if m == degree else "OnlyRealRoots"
        if n != want:
            for i in fails(st, sm, "answers %s after %d of %d roots" % (n, m, degree), "every root: ManyRealRoots; some: OnlyRealRoots; none: NoRoots"):
                yield i
            return
        if len(got) != m:
            for i in fails(st, sm, "%d roots are listed, %d were found" % (len(got), m), "the roots found are the roots listed"):
                yield i
            return
        # each root as found, or the whole number next to it
        left, chosen = list(got), []
        for j in range(1, m + 1):
            r = st.norm(R(j))
            w = ring.fn("round", r)
            for x in left:
                if st.norm(x - r).iszero() or st.norm(x - w).iszero():
                    left.remove(x)
                    chosen.append((r, w, x, R(j)))
                    break
            else:
                def broken(env, j=j):
                    y = env[one_atom(R(j))]
                    return all(abs(value(x, env) - y) > Decimal("0.01") for x in got)
                w = witness(st, sm, broken)
                yield ("witness", w, "the roots found are the roots listed") if w else ("unknown", "roots listed")
                return
        for r, w, x, r0 in chosen:
            if st.norm(r - w).iszero():
                continue
            better = ring.fn("abs", st.simp(at(p, r))) - ring.fn("abs", st.simp(at(p, w)))
            rounded = st.norm(x - w).iszero()
            d = st.decide(("pos", st.simp(better)))
            if d is not None and d == rounded:
                continue
            raws = [ring.fn("abs", at(p, y)) - ring.fn("abs", at(p, z)) for y in (r0, r) for z in (ring.fn("round", r0), st.norm(ring.fn("round", r0)), w, st.norm(w))]
            for f in st.path:
                if any(f == ("pos", raw) and rounded or f == ("not", ("pos", raw)) and not rounded for raw in raws):
                    break
            else:
                wt = witness(st, sm, lambda env: (value(better, env) > GAP) != rounded)
                yield ("witness", wt, "a root is replaced by the whole number next to it exactly when that one has the smaller residual") if wt else ("unknown", "choice of the root")
        # what the search was asked
        done = 0
        for k, v in enumerate(log.items):
            q = p
            for r, w, x, r0 in chosen[:done]:
                q = deflate(q, x)
            done += count(script[k]) if k < len(script) else 0
            v = cx.I.deref(st, v)
            if not (isinstance(v, Seq) and v.n.isconst()):
                if isinstance(v, Arr):
                    vs = [num(cx, o, y) for y in v.items]
                else:
                    vs = [None]
            else:
                vs = [st.coef(v.p, Lin(v.n.c - 1 - i)) for i in range(v.n.c)]
            if None in vs:
                yield ("unknown", "question %r" % (v,))
                return
            cl = "the search is asked about the polynomial without the roots found so far"
            if len(vs) != len(q) - 1:
                for i in fails(st, sm, "asks about degree %d instead of %d" % (len(vs), len(q) - 1), cl):
                    yield i
                return
            todo = [(x * q[0] - y, lambda x=x, y=y: rat(x * q[0] - y)[0].iszero() or st.norm(rat(x * q[0] - y)[0]).iszero(), cl) for x, y in zip(vs, q[1:])]
            for i in claims(st, sm, todo):
                yield i
        if m < degree and len(log.items) < len(script):
            for i in fails(st, sm, "stops after %d questions" % len(log.items), "the search goes on until nothing is found"):
                yield i
    return spec


def narrow(st):
    """the state with zeros and non-zeros that follow in a field; None: a quotient or product taken to be zero (or not)
    against its numerator or factors"""
    st = st.copy()
    for f in st.path:
        g = f[1] if f[0] == "not" else f
        if g[0] != "z":
            continue
        n, _ = rat(g[1])
        d = st.decide(zf(st.norm(n)))
        if d is not None and d == (f[0] == "not") and f not in (zf(n), fnot(zf(n))):
            return None
        if f[0] == "z":
            com, c = cofactor(n)
            if com and st.decide(zf(c)) is False:
                com = [a for a in com if st.decide(zf(Poly.atom(a))) is not False]
                if not com:
                    return None
                if len(com) == 1:
                    st.add_zero(Poly.atom(com[0]))
    return st


def cofactor(p):
    """atoms that divide every monomial, and the rest"""
    com = None
    for (b, fs) in p.t:
        if b or any(not e.isconst() for _, e in fs):
            return (), p
        m = {a: e.c for a, e in fs}
        com = m if com is None else {a: min(e, m[a]) for a, e in com.items() if a in m}
    com = {a: e for a, e in (com or {}).items() if e > 0}
    t = {}
    for (b, fs), k in p.t.items():
        t[(b, tuple((a, e - com.get(a, 0)) for a, e in fs if e.c != com.get(a, 0)))] = k
    return tuple(com), Poly(t)


def st_coef(cx, d):
    return cx.init.coef(cx.A[0], Lin(d))


def pattern(keys, degree, script):
    """exactly the coefficients at these degrees are not zero; several roots: in general position"""
    def prep(c):
        r = c.args[0]
        v = c.I.deref(c.st0, r)
        fs = []
        for x in v.fs:
            if isinstance(x, Seq):
                p = ZERO
                for d in keys:
                    p = p + c.st0.coef(x.p, Lin(d)) * ring.xpow(Lin(d))
                x = Seq(x.n, p)
            fs.append(x)
        v = Agg(v.k, v.v, tuple(fs))
        if isinstance(r, Ref):
            c.I.write(c.st0, r.b, r.path, v)
        else:
            c.args[0] = v
        c.A[0] = sem(c.I, c.st0, c.args[0])
        for d in keys:
            c.st0.add_nz(c.st0.coef(c.A[0], Lin(d)))
        if sum(count(x) for x in script) > 1:
            c.I.generic = lambda p: any(a[0] == "sym" and a[1].startswith("r") for a in leaves(p))
    return prep


def leaves(p):
    for (b, fs) in p.t:
        for a, e in fs:
            if a[0] in ("div", "fn"):
                for x in a[1:]:
                    if isinstance(x, Poly):
                        for y in leaves(x):
                            yield y
            else:
                yield a


SCRIPTS = {4: (((),), ((1, 1, 1, 1),), ((1, 1), ()), ((1, 1, 1), (1,)), ((1,), (1,), (1,), (1,)), ((1, 1), (1, 1)), ((ERR,),), ((1, ERR, 1), ()), ((1,), ()), ((1,), (1,), ())),
           5: (((1,), ()), ((1, 1, 1), ()), ((1, 1), (1,), ()))}
DEEP = {4: SCRIPTS[4] + (((1, 1, ERR), (1,), ()), ((1, 1), (1, ERR), (1,))), 5: SCRIPTS[5] + (((1, 1, 1, 1, 1),), ((1, 1, 1, 1), ()), ((1, 1), (1, 1), (1,)), ((ERR, 1), (ERR,))),
        6: (((),), ((1,), ()), ((1, 1, 1, 1, 1, 1),), ((1, 1), (1, 1), ()), ((1, 1, 1), (1, 1, 1)))}
KEYS4 = ((0, 4), (1, 4), (0, 1, 4), (0, 2, 4), (2, 3, 4), (0, 1, 2, 3, 4))


def C19(F, tier):
    P = "C19"
    for fid, f in F.fns.items():
        if f["path"].endswith("::roots") and f.get("body") and any(x in f["path"] for x in ("Polynomial::<f64>", "Polynomial<f64>")) and f["body"]["argc"] == 1:
            sparse = "Sparse" in f["path"]
            deep = tier == "thorough"
            for deg, scripts in (DEEP if deep else SCRIPTS).items():
                subs = [tuple(x) + (deg,) for k in range(1, deg + 1) for x in itertools.combinations(range(deg), k)]
                for sc in scripts:
                    for sh in subs if deep and deg < 6 else KEYS4 if deg == 4 else [(0, 1, deg), (0, 2, 3, deg), (0, 1, 4, deg)]:
                        yield lambda fid=fid, sh=sh, sc=sc, deg=deg, sparse=sparse: run_ob(F, P, fid, searchspec(deg, sh, sc), "degrees %s, %s roots found" % (sh, "+".join(str(count(x)) for x in sc)),
                                                                    shape=Fixed(len(sh), sh) if sparse else Fixed(deg + 1, range(deg + 1)), prep=pattern(sh, deg, sc), contracts={"extern:find_roots_sturm": ask_search(sc)}, whole=20, refine=False)
            for deg, sh in LONG:
                for sc in ((((),), ((1,), ())) if deg < 10 else (((),),)):
                    yield lambda fid=fid, sh=sh, sc=sc, deg=deg, sparse=sparse: run_ob(F, P, fid, searchspec(deg, sh, sc), "degrees %s, %s roots found" % (sh, "+".join(str(count(x)) for x in sc)),
                                                                    shape=Fixed(len(sh), sh) if sparse else Fixed(deg + 1, range(deg + 1)), prep=pattern(sh, deg, sc), contracts={"extern:find_roots_sturm": ask_search(sc)}, whole=20, refine=False)


LONG = ((6, (0, 6)), (6, (1, 6)), (7, (0, 1, 7)), (8, (0, 8)), (9, (0, 2, 9)), (10, (0, 10)), (11, (1, 11)), (12, (0, 1, 12)), (13, (0, 1, 2, 13)), (16, (0, 16)), (16, (14, 15, 16)), (17, (0, 1, 17)), (20, (0, 20)), (32, (0, 1, 32)), (33, (0, 33)))
PROPS = {"C18": C18, "C19": C19}
