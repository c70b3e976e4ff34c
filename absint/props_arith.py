"""C01-C07: ring operations, shifts, evaluation, calculus."""
from .oblig import *
from .ring import ppow, div


def binspec(op):
    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        r = sem(c.I, o.st, o.v)
        if r is None:
            yield ("unknown", "result is not a polynomial value: %r" % (o.v,))
            return
        yield ("zero", r - op(*[c.A[i] if c.A[i] is not None else c.ring(i) for i in range(len(c.args))]), "result denotes the specified polynomial")
    return spec


def asgspec(op):
    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        r = c.final(o, 0)
        if r is None:
            yield ("unknown", "receiver is not a polynomial value")
            return
        yield ("zero", r - op(*[c.A[i] if c.A[i] is not None else c.ring(i) for i in range(len(c.args))]), "receiver denotes the specified polynomial")
        for i in range(1, len(c.args)):
            if c.A[i] is not None and isinstance(c.args[i], Ref):
                yield ("zero", c.final(o, i) - c.A[i], "operand unchanged")
    return spec


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def rdiv(a, k):
    """coefficient by coefficient, with N's own division"""
    out = ZERO
    for (b, fs), n in a.t.items():
        num, rest = [], []
        for at, e in fs:
            (rest if at == X else num).append((at, e))
        q = Poly.atom(("div", Poly({((), tuple(num)): n}), k))
        out = out + ring.Poly_term(b, tuple(rest), 1, q)
    return out


def C01(F, tier):
    for im, t, s, r, ms in impls(F, "Add", "Sub", "AddAssign", "SubAssign", "Neg"):
        if not ispoly(s):
            continue
        for n, fid in ms.items():
            if t == "Neg":
                yield lambda fid=fid: run_ob(F, "C01", fid, binspec(lambda a: -a), "neg")
            elif ispoly(r):
                op = add if t.startswith("Add") else sub
                mk = asgspec if t.endswith("Assign") else binspec
                yield lambda fid=fid, mk=mk, op=op, t=t: run_ob(F, "C01", fid, mk(op), t.lower())


def C02(F, tier):
    for im, t, s, r, ms in impls(F, "Mul", "MulAssign"):
        if not ispoly(s) or not ispoly(r):
            continue
        for n, fid in ms.items():
            mk = asgspec if t.endswith("Assign") else binspec
            yield lambda fid=fid, mk=mk, t=t: run_ob(F, "C02", fid, mk(mul), t.lower())
    for fid, f in inherent(F, "borrow_mul"):
        if f["body"]["argc"] == 2 and all(ispoly(f["body"]["locals"][i]) for i in (1, 2)):
            yield lambda fid=fid: run_ob(F, "C02", fid, binspec(mul), "borrow_mul")


def C03(F, tier):
    for im, t, s, r, ms in impls(F, "Mul", "MulAssign", "Div", "DivAssign"):
        if not ispoly(s) or not numty(r):
            continue
        for n, fid in ms.items():
            mk = asgspec if t.endswith("Assign") else binspec
            op = mul if t.startswith("Mul") else rdiv
            yield lambda fid=fid, mk=mk, op=op, t=t: run_ob(F, "C03", fid, mk(op), "scalar " + t.lower())


BIG = 2 ** 40


def small_degrees(c):
    """degrees far below the word size: usize overflow of a degree is out of scope"""
    for i, t in enumerate(c.tys):
        st = strip(t)
        if st.get("k") == "adt" and st["p"].endswith("::Monomial"):
            v = c.I.deref(c.st0, c.args[i])
            c.st0.add_lin(Lin(BIG) - v.fs[1].l)


def shift(c, st, A, k, left):
    """multiply by x^k, dropping terms of negative exponent"""
    d = st.decide(ge(k))
    if d is None:
        raise Split(ge(k))
    up = (d == left)
    m = k if d else -k
    if up:
        return A * xpow(m)
    return st.window(A, m, None) * xpow(-m)


def shiftspec(left, assign):
    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        r = c.final(o, 0) if assign else sem(c.I, o.st, o.v)
        if r is None:
            yield ("unknown", "result is not a polynomial value")
            return
        yield ("zero", r - shift(c, o.st, c.A[0], c.lin(1), left), "every coefficient moves by the shift, terms below x^0 are dropped")
    return spec


def C04(F, tier):
    for im, t, s, r, ms in impls(F, "Shl", "Shr", "ShlAssign", "ShrAssign"):
        if not ispoly(s):
            continue
        for n, fid in ms.items():
            yield lambda fid=fid, t=t: run_ob(F, "C04", fid, shiftspec(t.startswith("Shl"), t.endswith("Assign")), t.lower(), prep=small_degrees)


def evalspec(c, o):
    """value at the point: substitute the point for X"""
    if o.k != "ret":
        yield panics(o)
        return
    v = c.I.deref(o.st, o.v)
    if not isinstance(v, RingV):
        yield ("unknown", "result is not a scalar")
        return
    yield ("zero", v.p - at_point(c.A[0], c.ring(1)), "sum of coefficient * point^degree")


def at_point(A, p):
    """substitute a scalar for the indeterminate"""
    def f(a):
        return p if a == X else None
    return A.map_atoms(f)


def C05(F, tier):
    for im, t, s, r, ms in impls(F, "Evaluable"):
        for n, fid in ms.items():
            if n == "eval":
                yield lambda fid=fid: run_ob(F, "C05", fid, evalspec, "eval")


def reprspec(c, o):
    """the only panic is the documented one: a degree without representation"""
    if o.k == "ret":
        return
    if any(f[0] == "atom" and f[1] == "repr" and b is False for f, b in o.st.bools.items()):
        return
    yield panics(o)


def dspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = sem(c.I, o.st, o.v)
    if r is None:
        yield ("unknown", "result is not a polynomial value: %r" % (o.v,))
        return
    yield ("zero", r - deriv(c.A[0]), "coefficient of x^(n-1) is n times the coefficient of x^n")


def deriv(A):
    out = ZERO
    for (b, fs), n in A.t.items():
        ex = Lin(0)
        for a, q in fs:
            if a == X:
                ex = q
        out = out + ring.Poly_term(b, fs, n, emb(ex) * xpow(-1))
    return out


def C06(F, tier):
    for im, t, s, r, ms in impls(F, "Derivable"):
        for n, fid in ms.items():
            if n == "derivative":
                yield lambda fid=fid: run_ob(F, "C06", fid, dspec, "derivative", prep=small_degrees, total=True)
                yield lambda fid=fid: run_ob(F, "C06", fid, reprspec, "derivative panics only on an unrepresentable degree", prep=small_degrees)


def integ(A):
    out = ZERO
    for (b, fs), n in A.t.items():
        ex = Lin(0)
        num, rest = [], []
        for a, q in fs:
            if a == X:
                ex = q
                rest.append((a, q))
            else:
                num.append((a, q))
        q = div(Poly({((), tuple(num)): n}), emb(ex + 1))
        out = out + ring.Poly_term(b, tuple(rest), 1, q * xpow(1))
    return out


def ispec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = sem(c.I, o.st, o.v)
    if r is None:
        yield ("unknown", "result is not a polynomial value: %r" % (o.v,))
        return
    yield ("zero", r - integ(c.A[0]), "coefficient of x^(n+1) is the coefficient of x^n divided by n+1, constant zero")


def C07(F, tier):
    for im, t, s, r, ms in impls(F, "Integrable"):
        for n, fid in ms.items():
            if n == "integral":
                yield lambda fid=fid: run_ob(F, "C07", fid, ispec, "integral", prep=small_degrees, total=True)
                yield lambda fid=fid: run_ob(F, "C07", fid, reprspec, "integral panics only on an unrepresentable degree", prep=small_degrees)


def antiderivative(c):
    """integrals carry a zero constant term"""
    for P in list(c.st0.sup):
        c.st0.add_zr(P, Lin(0), Lin(1))
    small_degrees(c)


def defspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = c.I.deref(o.st, o.v)
    if not isinstance(v, RingV):
        yield ("unknown", "result is not a scalar")
        return
    yield ("zero", v.p - (at_point(c.A[0], c.ring(2)) - at_point(c.A[0], c.ring(1))), "value at the end minus value at the start")


def repspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = sem(c.I, o.st, o.v)
    if r is None:
        yield ("unknown", "result is not a polynomial value")
        return
    yield ("zero", r - c.A[0] - c.ring(1), "the antiderivative plus the chosen constant")
    yield ("zero", c.final(o, 0) - c.A[0], "the integral itself is unchanged")


def integral_targets(F):
    """polynomial types that occur as the antiderivative type"""
    seen = []
    for im, t, s, r, ms in impls(F, "Integrable"):
        P = im["targs"][2]
        if P not in seen:
            seen.append(P)
    return seen


def C07b(F, tier):
    for x in C07(F, tier):
        yield x
    for P in integral_targets(F):
        for fid, f in inherent(F, "eval", "replace_c"):
            t = f["body"]["locals"][1]
            if strip(t).get("k") != "adt" or not strip(t)["p"].endswith("::Integral"):
                continue
            sp = defspec if f["name"] == "eval" else repspec
            pn = strip(t)["a"][1].get("n", "P")
            yield lambda fid=fid, sp=sp, P=P, pn=pn, f=f: run_ob(F, "C07", fid, sp, "%s over %s" % (f["name"], show_ty(P)), prep=antiderivative, subst={pn: P})


PROPS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C06": C06, "C07": C07b}


# ------------------------------------------------------------------ powers
def gf(n):
    return Poly.atom(("gf", n))


def has_gf(p):
    return p is not None and any(a[0] == "gf" for a in p.atoms())


def polyval(ty, st, p):
    n = Lin.sym(fresh("n"))
    st.add_lin(n)
    name = strip(ty)["p"]
    body = MapV(p) if name.endswith("SparsePolynomial") else Seq(n, p)
    return Agg(name, 0, (body,))


def abstract_contracts(F, prop_fids, powfid=None, bound=None):
    """callee summaries over polynomials as ring elements; each summary is itself
    an obligation of C02 (products) or C11 (construction)"""
    out = {}

    def prod(ty, assign):
        def c(I, st, args, subst, depth):
            ps = [sem(I, st, a) for a in args]
            if len(ps) != 2 or None in ps or not any(map(has_gf, ps)):
                return None
            v = polyval(ty, st, ps[0] * ps[1])
            if assign:
                I.write(st, args[0].b, args[0].path, v)
                return [Out("ret", st, UNIT)]
            return [Out("ret", st, v)]
        return c
    for im, t, s, r, ms in impls(F, "Mul", "MulAssign"):
        if ispoly(s) and ispoly(r):
            for n, fid in ms.items():
                out[fid] = prod(s, t == "MulAssign")
    for fid, f in inherent(F, "borrow_mul"):
        out[fid] = prod(f["body"]["locals"][1], False)

    def ident(I, st, args, subst, depth):
        p = sem(I, st, args[0])
        if not has_gf(p):
            return None
        v = I.deref(st, args[0])
        f = F.fns[ident_fid[0]]
        return None
    for fid, f in inherent(F, "new"):
        rt = f["body"]["locals"][0]
        if f["body"]["argc"] == 1 and ispoly(rt):
            def new(I, st, args, subst, depth, rt=rt):
                p = sem(I, st, args[0])
                return [Out("ret", st, polyval(rt, st, p))] if has_gf(p) else None
            out[fid] = new
    for fid, f in inherent(F, "trim"):
        if f["body"]["argc"] == 1 and ispoly(f["body"]["locals"][1]):
            def trim(I, st, args, subst, depth):
                p = sem(I, st, args[0])
                return [Out("ret", st, UNIT)] if has_gf(p) else None
            out[fid] = trim
    if powfid is not None:
        rt = F.fns[powfid]["body"]["locals"][0]

        def powc(I, st, args, subst, depth):
            if depth == 0:
                return None
            p = sem(I, st, args[0])
            e = I.deref(st, args[1])
            if p is None or not isinstance(e, IntV):
                return None
            if bound is not None and not (st.entails(bound - 1 - e.l) and st.entails(e.l)):
                if e.l.isconst() and bound.isconst():
                    return None
                raise GiveUp("recursion with an exponent not shown smaller")
            return [Out("ret", st, polyval(rt, st, ppow(p, e.l)))]
        out[powfid] = powc
    return out


def powspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = sem(c.I, o.st, o.v)
    if r is None:
        yield ("unknown", "result is not a polynomial value")
        return
    yield ("zero", r - ppow(gf("A"), c.lin(1)), "self multiplied by itself exp times")


def set_gf(e=None):
    def prep(c):
        r = c.args[0]
        v = c.I.deref(c.st0, r)
        nv = polyval(c.tys[0], c.st0, gf("A"))
        if isinstance(r, Ref):
            c.st0.store[r.b] = nv
        else:
            c.args[0] = nv
        c.A[0] = gf("A")
        if e is not None:
            c.args[1] = IntV(Lin(e), "usize")
    return prep


def monopow(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = c.I.deref(o.st, o.v)
    a = c.I.deref(c.init, c.args[0])
    if not (isinstance(v, Agg) and len(v.fs) == 2 and isinstance(v.fs[0], RingV) and isinstance(v.fs[1], IntV)):
        yield ("unknown", "result is not a monomial")
        return
    d, e = a.fs[1].l, c.lin(1)
    x, y = sorted((d, e), key=repr)
    m = d * e if (d.isconst() or e.isconst()) else Lin.sym(("op", "Mul", x, y))
    yield ("zero", v.fs[0].p - c.I.M.ppow_ring(a.fs[0].p, e), "coefficient raised to exp")
    yield ("form", eq(v.fs[1].l - m), "degree times exp")


def pow_fns(F):
    for fid, f in inherent(F, "pow"):
        b = f["body"]
        if b["argc"] == 2 and ispoly(b["locals"][1]) and b["locals"][2].get("n") == "usize":
            yield fid, f, strip(b["locals"][1])["p"].endswith("::Monomial")


def C02b(F, tier):
    for x in C02(F, tier):
        yield x
    for fid, f, mono in pow_fns(F):
        if mono:
            yield lambda fid=fid: run_ob(F, "C02", fid, monopow, "pow", prep=small_degrees)
            for e in range(0, 5):
                def fix(c, e=e):
                    small_degrees(c)
                    c.args[1] = IntV(Lin(e), "usize")
                yield lambda fid=fid, fix=fix, e=e: run_ob(F, "C02", fid, monopow, "pow with exponent %d" % e, prep=fix)
            continue
        b = Lin.sym("b")
        yield lambda fid=fid, b=b: run_ob(F, "C02", fid, powspec, "pow, induction on the exponent", prep=set_gf(),
                                           contracts=abstract_contracts(F, (), fid, b))
        for e in range(0, 20 if tier == "quick" else 70):
            yield lambda fid=fid, e=e: run_ob(F, "C02", fid, powspec, "pow with exponent %d" % e, prep=set_gf(e),
                                              contracts=abstract_contracts(F, (), fid, Lin(e)))


PROPS["C02"] = C02b
