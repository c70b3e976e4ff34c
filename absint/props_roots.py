"""C17: closed-form roots and factorisations (degree two and below), in exact field arithmetic.
Results are rational functions of the coefficients and of s = sqrt|D|; clearing denominators
turns every claim into polynomial identities U = 0, V = 0 for U + V*s."""
from .oblig import *
from .props_obs import enum
from .props_arith import panics
from . import ring
from .ring import Poly, ONE, ZERO


def rat(p):
    """-> (num, den) without division atoms"""
    num, den = ZERO, ONE
    for (b, fs), k in p.t.items():
        if b:
            return p, ONE
        n, d = Poly.const(k), ONE
        for a, e in fs:
            if a[0] == "div" and e.isconst():
                n1, d1 = rat(a[1])
                n2, d2 = rat(a[2])
                for _ in range(abs(e.c)):
                    if e.c > 0:
                        n, d = n * n1 * d2, d * d1 * n2
                    else:
                        n, d = n * d1 * n2, d * n1 * d2
            elif a[0] == "fn" and a[1] in ("abs_sqrt", "sqrt") and e.isconst() and e.c >= 2:
                n = n * (square(a) if e.c % 2 == 0 else square(a) * Poly.atom(a)) if e.c <= 3 else n * Poly.atom(a, e)
            else:
                n = n * Poly.atom(a, e)
        if den == d:
            num = num + n
        else:
            num, den = num * d + n * den, den * d
    return num, den


SIGN = {}


def square(a):
    """s*s for s = sqrt|D|"""
    D = a[2]
    if a[1] == "sqrt":
        return D
    return Poly.atom(("fn", "abs", D))


def reduce(st, p):
    """polynomial in s -> (U, V, |D|, s): p = U + V s, with |D| settled to D or -D"""
    for _ in range(6):
        ch = False
        out = ZERO
        for (b, fs), k in p.t.items():
            t = Poly.const(k)
            for a, e in fs:
                if a[0] == "fn" and a[1] == "abs_sqrt":
                    if not e.isconst():
                        raise GiveUp("power of a root")
                    n = e.c
                    while n >= 2:
                        t = t * magnitude(st, a[2])
                        n -= 2
                        ch = True
                    if n:
                        if st.decide(zf(st.norm(a[2]))) is True:
                            t = ZERO
                            ch = True
                        else:
                            t = t * Poly.atom(a)
                elif a[0] == "fn" and a[1] == "abs":
                    for _ in range(e.c):
                        t = t * magnitude(st, a[2])
                    ch = True
                else:
                    t = t * Poly.atom(a, e)
            out = out + t
        p = out
        if not ch:
            break
    U, V, s = ZERO, ZERO, None
    for (b, fs), k in p.t.items():
        r = [a for a, e in fs if a[0] == "fn" and a[1] == "abs_sqrt"]
        if not r:
            U = U + Poly({(b, fs): k})
            continue
        if len(r) > 1 or (s is not None and r[0] != s):
            raise GiveUp("several roots")
        s = r[0]
        V = V + Poly({(b, tuple(x for x in fs if x[0] != s)): k})
    return U, V, s


def magnitude(st, D):
    d = st.decide(("pos", st.simp(D)))
    if d is None:
        z = st.decide(zf(st.norm(D)))
        if z is True:
            return ZERO
        raise Split(("pos", st.simp(D)))
    return D if d else -D


def fieldzero(st, p, clause):
    """items: p is zero in exact arithmetic"""
    n, d = rat(p)
    U, V, s = reduce(st, n)
    if s is None:
        yield ("zero", U, clause)
        return
    from .decide import prove_zero, PROVED
    if prove_zero(st, U, witness=False)[0] == PROVED and prove_zero(st, V, witness=False)[0] == PROVED:
        yield ("zero", U, clause)
        yield ("zero", V, clause)
        return
    N = U * U - V * V * magnitude(st, s[2])
    if prove_zero(st, N, witness=False)[0] == PROVED:
        yield ("unknown", "conjugate values")
    else:
        yield ("zero", N, clause)


def sign(st, p):
    """sign of a product, from the partition: 1, -1, 0 or None"""
    p = st.norm(p)
    if not p.t:
        return 0
    if len(p.t) != 1:
        return None
    ((b, fs), k), = p.t.items()
    r = 1 if k > 0 else -1
    if b:
        return None
    for a, e in fs:
        if not e.isconst():
            return None
        if e.c % 2 == 0:
            continue
        q = Poly.atom(a)
        d = st.decide(("pos", st.simp(q)))
        if d is True:
            pass
        elif d is False or st.decide(("pos", st.simp(-q))) is True:
            r = -r
        else:
            raise Split(("pos", st.simp(q)))
    return r


def larger(st, x, y):
    """items: x >= y"""
    n, d = rat(x - y)
    U, V, s = reduce(st, n)
    if not st.norm(U).t and not st.norm(V).t:
        return
    if not st.norm(U).t:
        g = sign(st, V * d)
    elif not st.norm(V).t:
        g = sign(st, U * d)
    else:
        g = None
    if g is None:
        yield ("unknown", "order of the roots")
    elif g < 0:
        yield ("fail", "the smaller root comes first", "the larger root comes first")


def num(c, o, v):
    v = c.I.deref(o.st, v)
    return v.p if isinstance(v, RingV) else None


def cplx(c, o, v):
    v = c.I.deref(o.st, v)
    if isinstance(v, Agg) and v.k == "Complex":
        a, b = num(c, o, v.fs[0]), num(c, o, v.fs[1])
        if a is not None and b is not None:
            return a, b
    return None


def items_of(c, o, v):
    v = c.I.deref(o.st, v)
    if isinstance(v, Arr):
        return [c.I.deref(o.st, x) for x in v.items]
    if isinstance(v, Seq) and v.n.isconst() and v.n.c <= 12:
        return [RingV(o.st.coef(v.p, Lin(v.n.c - 1 - i))) for i in range(v.n.c)]
    return None


def dform(st, a, b, c):
    return st.simp(b * b - (a * c).scale(4))


def two_real(st, a, b, c, x, y, order=True):
    yield ("form", fnot(zf(st.norm(a))), "two roots only for a quadratic")
    D = dform(st, a, b, c)
    yield ("form", for_(("pos", D), zf(st.norm(D))), "real roots only when the discriminant is not negative")
    for i in fieldzero(st, a * (x + y) + b, "the roots add up to -b/a"):
        yield i
    for i in fieldzero(st, a * x * y - c, "the roots multiply to c/a"):
        yield i
    if order:
        for i in larger(st, x, y):
            yield i


def two_complex(st, a, b, c, z, w):
    yield ("form", fnot(zf(st.norm(a))), "two roots only for a quadratic")
    D = dform(st, a, b, c)
    yield ("form", fnot(for_(("pos", D), zf(st.norm(D)))), "complex roots only when the discriminant is negative")
    for p, cl in ((a * (z[0] + w[0]) + b, "the roots add up to -b/a"), (z[1] + w[1], "the roots are conjugate"),
                  (a * (z[0] * w[0] - z[1] * w[1]) - c, "the roots multiply to c/a"),
                  (z[0] * w[1] + z[1] * w[0], "the roots are conjugate")):
        for i in fieldzero(st, p, cl):
            yield i


def rootspec(coefs, many=False, single=False, free=False):
    """a x^2 + b x + c"""
    def spec(cx, o):
        if o.k != "ret":
            yield panics(o)
            return
        st = o.st
        a, b, c = coefs(cx)
        v = enum(cx, cx.I.deref(st, o.v))
        if v is None:
            yield ("unknown", "result %r" % (o.v,))
            return
        n, fs = v
        if n == "InfiniteRoots":
            for x in (a, b, c):
                yield ("zero", x, "every number is a root only of zero")
        elif n == "NoRoots":
            yield ("zero", a, "no root only for a non-zero constant")
            yield ("zero", b, "no root only for a non-zero constant")
            yield ("form", fnot(zf(st.norm(c))), "no root only for a non-zero constant")
        elif n == "OneRealRoot":
            x = num(cx, o, fs[0])
            if x is None:
                yield ("unknown", "root %r" % (fs[0],))
                return
            yield ("zero", a, "one root only for a linear polynomial")
            yield ("form", fnot(zf(st.norm(b))), "one root only for a linear polynomial")
            for i in fieldzero(st, b * x + c, "the root is a zero of the polynomial"):
                yield i
        elif n == "TwoRealRoots":
            x, y = num(cx, o, fs[0]), num(cx, o, fs[1])
            if x is None or y is None:
                yield ("unknown", "roots %r" % (fs,))
                return
            for i in two_real(st, a, b, c, x, y):
                yield i
        elif n == "TwoComplexRoots":
            z, w = cplx(cx, o, fs[0]), cplx(cx, o, fs[1])
            if z is None or w is None:
                yield ("unknown", "roots %r" % (fs,))
                return
            for i in two_complex(st, a, b, c, z, w):
                yield i
        elif many and n in ("ManyRealRoots", "ManyComplexRoots"):
            xs = items_of(cx, o, fs[0])
            if xs is None:
                yield ("unknown", "roots %r" % (fs,))
                return
            if n == "ManyComplexRoots":
                zs = [cplx(cx, o, x) for x in xs]
                if None in zs:
                    yield ("unknown", "roots %r" % (fs,))
                elif len(zs) != 2:
                    yield ("fail", "%d complex roots" % len(zs), "a quadratic has two roots")
                else:
                    for i in two_complex(st, a, b, c, *zs):
                        yield i
                return
            xs = [num(cx, o, x) for x in xs]
            if None in xs:
                yield ("unknown", "roots %r" % (fs,))
            elif single:
                if not xs:
                    yield ("fail", "no root is listed", "zero is a root of a power of x")
                for x in xs:
                    for i in fieldzero(st, x, "zero is the only root of a power of x"):
                        yield i
            elif len(xs) == 1 and free and settle(st, a) is False:
                yield ("zero", b, "a single root only for a power of x or a linear polynomial")
                yield ("zero", c, "a single root only for a power of x or a linear polynomial")
                yield ("zero", xs[0], "zero is the only root of a power of x")
            elif len(xs) == 1:
                yield ("form", fnot(zf(st.norm(b))), "one root only for a linear polynomial")
                yield ("zero", a, "one root only for a linear polynomial")
                for i in fieldzero(st, b * xs[0] + c, "the root is a zero of the polynomial"):
                    yield i
            elif len(xs) == 2:
                for i in two_real(st, a, b, c, *xs):
                    yield i
            else:
                yield ("fail", "%d roots are listed" % len(xs), "as many roots as the degree")
        else:
            yield ("fail", "answers %s" % n, "the answer is one of the roots of the polynomial")
    return spec


def settle(st, a):
    f = zf(st.norm(a))
    d = st.decide(f)
    if d is None:
        raise Split(f)
    return d


def abc(cx):
    st, A = cx.init, cx.A[0]
    return tuple(st.coef(A, Lin(i)) for i in (2, 1, 0))


def args3(cx):
    return cx.ring(0), cx.ring(1), cx.ring(2)


def disc(coefs):
    def spec(cx, o):
        if o.k != "ret":
            yield panics(o)
            return
        v = num(cx, o, o.v)
        if v is None:
            yield ("unknown", "result %r" % (o.v,))
            return
        a, b, c = coefs(cx)
        yield ("zero", v - (b * b - (a * c).scale(4)), "b^2 - 4ac")
    return spec


def monoroot(cx, o):
    """c x^d"""
    if o.k != "ret":
        yield panics(o)
        return
    st, A = o.st, cx.A[0]
    v = enum(cx, cx.I.deref(st, o.v))
    if v is None:
        yield ("unknown", "result %r" % (o.v,))
        return
    n, fs = v
    if n == "InfiniteRoots":
        yield ("zero", A, "every number is a root only of zero")
    elif n == "NoRoots":
        yield ("nonzero", st.coef(A, Lin(0)), "no root only for a non-zero constant")
    elif n == "OneRealRoot":
        x = num(cx, o, fs[0])
        if x is None:
            yield ("unknown", "root %r" % (fs[0],))
            return
        yield ("zero", x, "zero is the only root")
        yield ("zero", st.coef(A, Lin(0)), "zero is a root")
        yield ("nonzero", A, "not the zero polynomial")
    else:
        yield ("fail", "answers %s" % n, "the answer is the root of the monomial")


def linear(cx, o, v):
    """LinearBinomial or two-element array -> (x coefficient, constant), complex or real"""
    v = cx.I.deref(o.st, v)
    if isinstance(v, Agg) and len(v.fs) == 1:
        s = cx.I.deref(o.st, v.fs[0])
        if isinstance(s, Seq):
            return tuple((o.st.coef(s.p, Lin(i)), ZERO) for i in (1, 0))
        if isinstance(s, Arr) and len(s.items) == 2:
            r = [cplx(cx, o, x) or ((num(cx, o, x), ZERO) if num(cx, o, x) is not None else None) for x in s.items]
            if None not in r:
                return tuple(r)
    return None


def cmul(x, y):
    return x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]


def factspec(real):
    def spec(cx, o):
        if o.k != "ret":
            yield panics(o)
            return
        st = o.st
        a, b, c = abc(cx)
        v = cx.I.deref(st, o.v)
        D = dform(st, a, b, c)
        if real:
            if not (isinstance(v, Agg) and isinstance(v.k, str) and v.k.endswith("Option")):
                yield ("unknown", "result %r" % (v,))
                return
            if v.v == 0:
                yield ("form", for_(zf(st.norm(a)), fnot(for_(("pos", D), zf(st.norm(D))))), "a quadratic with real roots has real factors")
                return
            yield ("form", fnot(zf(st.norm(a))), "real factors only for a quadratic")
            v = cx.I.deref(st, v.fs[0])
        if not (isinstance(v, Agg) and v.k == "tuple" and len(v.fs) == 3):
            yield ("unknown", "result %r" % (v,))
            return
        k, f, g = num(cx, o, v.fs[0]), linear(cx, o, v.fs[1]), linear(cx, o, v.fs[2])
        if k is None or f is None or g is None:
            yield ("unknown", "factors %r" % (v,))
            return
        k = (k, ZERO)
        for want, ps in ((a, [cmul(f[0], g[0])]), (b, [cmul(f[0], g[1]), cmul(f[1], g[0])]), (c, [cmul(f[1], g[1])])):
            re = im = ZERO
            for p in ps:
                q = cmul(k, p)
                re, im = re + q[0], im + q[1]
            for i in fieldzero(st, re - want, "the product of the factors is the polynomial"):
                yield i
            for i in fieldzero(st, im, "the product of the factors is the polynomial"):
                yield i
    return spec


def terms(degs):
    """slice of non-zero terms with these degrees"""
    def prep(c):
        its = []
        c.cs = {}
        for i, d in enumerate(degs):
            x = ring.sym("c%d:f64" % i)
            c.st0.add_nz(x)
            if d is None:
                dd = Lin.sym("d")
                c.st0.add_lin(dd - 1)
            else:
                dd = Lin(d)
                c.cs[d] = x
            its.append(Agg("tuple", 0, (RingV(x), IntV(dd))))
        r = c.args[0]
        c.I.write(c.st0, r.b, r.path, Arr(its))
    return prep


def special(degs):
    single = len(degs) == 1 and degs[0] != 0
    base = rootspec(lambda c: tuple(c.cs.get(d, ZERO) for d in (2, 1, 0)), many=True, single=single)

    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        v = c.I.deref(o.st, o.v)
        if not (isinstance(v, Agg) and isinstance(v.k, str) and v.k.endswith("Option")):
            yield ("unknown", "result %r" % (v,))
            return
        if v.v == 0:
            yield ("unknown", "left to the numeric search")
            return
        for i in base(c, Out(o.k, o.st, v.fs[0])):
            yield i
    return spec


def search(I, st, args):
    return [Out("panic", st, "a polynomial of degree at most two is left to the numeric search")]


SEARCH = {"extern:find_roots_sturm": search, "extern:find_roots_cubic": search}


def C17(F, tier):
    P = "C17"

    def named(end):
        return [(fid, f) for fid, f in F.fns.items() if f["path"].endswith(end) and f.get("body")]
    for fid, f in named("find_roots::trinomial_roots"):
        yield lambda fid=fid: run_ob(F, P, fid, rootspec(args3), "roots of a quadratic", refine=False)
    for fid, f in named("find_roots::discriminant_trinomial"):
        yield lambda fid=fid: run_ob(F, P, fid, disc(args3), "discriminant", refine=False)
    for nm in ("roots", "discriminant", "complex_factors", "real_factors"):
        for ty in ("QuadraticTrinomial::<N>", "ArrayPolynomial::<N, 3>"):
            for fid, f in named("%s::%s" % (ty, nm)):
                sp = {"roots": rootspec(abc), "discriminant": disc(abc), "complex_factors": factspec(False), "real_factors": factspec(True)}[nm]
                yield lambda fid=fid, sp=sp, nm=nm, ty=ty: run_ob(F, P, fid, sp, "%s of %s" % (nm, ty), refine=False)
    for ty in ("LinearBinomial::<N>", "ArrayPolynomial::<N, 2>"):
        for fid, f in named(ty + "::root"):
            yield lambda fid=fid, ty=ty: run_ob(F, P, fid, rootspec(abc), "root of %s" % ty, refine=False)
    for fid, f in named("Monomial::<N>::root"):
        yield lambda fid=fid: run_ob(F, P, fid, monoroot, "root of Monomial", refine=False)
    for fid, f in named("find_roots::find_roots_special"):
        for degs in ((), (0,), (None,), (1, 0), (2, 0), (2, 1), (2, 1, 0)):
            yield lambda fid=fid, degs=degs: run_ob(F, P, fid, special(degs), "roots of terms %s" % (degs,), prep=terms(degs), refine=False)
    for fid, f in named("::roots"):
        if any(x in f["path"] for x in ("Polynomial::<f64>", "Polynomial<f64>")) and f["body"]["argc"] == 1:
            for sh in [(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]:
                if "Sparse" not in f["path"] and sh != tuple(range(len(sh))):
                    continue
                yield lambda fid=fid, sh=sh: run_ob(F, P, fid, rootspec(abc, many=True, free=True), "roots with terms of degree %s" % (sh,), shape=Fixed(len(sh), sh), contracts=SEARCH, whole=20, refine=False)
            if "Sparse" not in f["path"]:
                from .props_search import pattern
                # stored leading zeros
                for sh in [(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2), (3,), (4,)]:
                    yield lambda fid=fid, sh=sh: run_ob(F, P, fid, rootspec(abc, many=True, single=sh[:1] > (2,), free=True), "roots with five stored coefficients, non-zero %s" % (sh,), shape=Fixed(5, range(5)), prep=pattern(sh, 4, ()), contracts=SEARCH, whole=20, refine=False)
            if "Sparse" in f["path"]:
                for sh in ((3,), (7,)):
                    yield lambda fid=fid, sh=sh: run_ob(F, P, fid, rootspec(abc, many=True, single=True), "roots of a power of x %s" % (sh,), shape=Fixed(1, sh), contracts=SEARCH, whole=20, refine=False)


PROPS = {"C17": C17}
