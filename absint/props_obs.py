"""C09-C12: observers, equality, construction and conversion, checked mutation."""
from .oblig import *
from .interp import Frame
from . import models
from .props_arith import small_degrees, panics


def variant(F, ty, v):
    """name of variant v of the crate enum ty"""
    a = F.adt_by_path.get(ty)
    return a["variants"][v]["n"] if a else None


def enum(c, v):
    """(variant name, fields) of an enum value, or None"""
    if isinstance(v, Agg) and isinstance(v.k, str):
        n = variant(c.F, v.k, v.v)
        if n is not None:
            return n, v.fs
    return None


def top(A, st, d):
    """d is the degree of A: nothing above, something there"""
    yield ("zero", st.window(A, d + 1, None), "no term above the reported degree")
    yield ("form", fnot(zf(st.norm(st.coef(A, d)))), "the coefficient at the reported degree is not zero")


def degspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = enum(c, c.I.deref(o.st, o.v))
    if v is None:
        yield ("unknown", "result %r" % (o.v,))
    elif v[0] == "NegInf":
        yield ("zero", c.A[0], "NegInf only for the zero polynomial")
    elif v[0] == "Num" and isinstance(v[1][0], IntV):
        for x in top(c.A[0], o.st, v[1][0].l):
            yield x
    else:
        yield ("unknown", "result %r" % (o.v,))


def iszero(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = c.I.deref(o.st, o.v)
    if not isinstance(v, BoolV):
        yield ("unknown", "result is not a boolean")
        return
    d = o.st.decide(v.f)
    if d is None:
        raise Split(v.f)
    if d:
        yield ("zero", c.A[0], "reported zero")
    else:
        yield ("nonzero", c.A[0], "reported non-zero")


def termspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = enum(c, c.I.deref(o.st, o.v))
    k = c.lin(1)
    want = o.st.coef(c.A[0], k)
    if v is None:
        yield ("unknown", "result %r" % (o.v,))
    elif v[0] == "ZeroTerm":
        yield ("zero", want, "ZeroTerm only where the coefficient is zero")
    else:
        cf, d = [c.I.deref(o.st, x) for x in v[1]]
        if not (isinstance(cf, RingV) and isinstance(d, IntV)):
            yield ("unknown", "result %r" % (o.v,))
            return
        yield ("form", eq(d.l - k), "the term has the requested degree")
        yield ("zero", cf.p - want, "the term carries the coefficient at the requested degree")
        yield ("form", fnot(zf(o.st.norm(want))), "a zero coefficient is reported as ZeroTerm")


def newterm(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = enum(c, c.I.deref(o.st, o.v))
    if v is None:
        yield ("unknown", "result %r" % (o.v,))
    elif v[0] == "ZeroTerm":
        yield ("zero", c.ring(0), "ZeroTerm only for a zero coefficient")
    else:
        cf, d = [c.I.deref(o.st, x) for x in v[1]]
        yield ("zero", cf.p - c.ring(0), "the coefficient is kept")
        yield ("form", eq(d.l - c.lin(1)), "the degree is kept")
        yield ("form", fnot(zf(c.ring(0))), "a zero coefficient gives ZeroTerm")


def asterm(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = enum(c, c.I.deref(o.st, o.v))
    m = c.I.deref(c.init, c.args[0])
    if v is None:
        yield ("unknown", "result %r" % (o.v,))
    elif v[0] == "ZeroTerm":
        yield ("zero", m.fs[0].p, "ZeroTerm only for a zero coefficient")
    else:
        cf, d = [c.I.deref(o.st, x) for x in v[1]]
        yield ("zero", cf.p - m.fs[0].p, "the coefficient is kept")
        yield ("form", eq(d.l - m.fs[1].l), "the degree is kept")
        yield ("form", fnot(zf(m.fs[0].p)), "a zero coefficient gives ZeroTerm")


def listed(c, o):
    """turn a returned sequence of terms into an explicit list, or its summary"""
    if o.k != "ret":
        return [o]
    fr = Frame(c.fid, c.f, dict(c.subst), 0)
    v = c.I.deref(o.st, o.v)
    if isinstance(v, Arr):
        return [o]
    it = v.it if isinstance(v, ISeq) else v
    if isinstance(it, Agg) or isinstance(it, IterV):
        if isinstance(it, IterV) and c.I.shape is None:
            try:
                qs = split_run(o.st.copy(), lambda s: models.term_list(c.I, fr, s, it))
                if all(q is not None for _, q in qs):
                    return [Out("ret", s, Opaque("terms", q)) for s, q in qs]
            except GiveUp:
                pass
        try:
            snap = o.st.copy()
            return models.collect_explicit(c.I, fr, snap, it)
        except (Split, GiveUp) as e:
            return [Out("ret", o.st, Top("terms: %s" % e))]
    return [o]


def listspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = c.I.deref(o.st, o.v)
    if isinstance(v, Opaque) and v.tag == "terms":
        yield ("zero", v.p - c.A[0], "the terms listed are those of the polynomial")
        return
    if not isinstance(v, Arr):
        yield ("unknown", "result %s" % short(repr(v)))
        return
    s = ZERO
    prev = None
    for x in v.items:
        x = c.I.deref(o.st, x)
        if not (isinstance(x, Agg) and len(x.fs) == 2):
            yield ("unknown", "item %r" % (x,))
            return
        cf, d = [c.I.deref(o.st, y) for y in x.fs]
        if not (isinstance(cf, RingV) and isinstance(d, IntV)):
            yield ("unknown", "item %r" % (x,))
            return
        yield ("form", fnot(zf(o.st.norm(cf.p))), "only non-zero terms are listed")
        if prev is not None:
            yield ("form", ge(prev - d.l - 1), "terms are listed in strictly descending degree")
        prev = d.l
        s = s + cf.p * xpow(d.l)
    yield ("zero", s - c.A[0], "the terms listed are those of the polynomial")


def zerospec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = sem(c.I, o.st, o.v)
    if r is None:
        yield ("unknown", "result is not a polynomial value")
        return
    yield ("zero", r, "the zero polynomial")


def clearspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = c.final(o, 0)
    if r is None:
        yield ("unknown", "receiver is not a polynomial value")
        return
    yield ("zero", r, "every coefficient is zero afterwards")


SIZED = {"degree": (degspec, None), "term_with_degree": (termspec, None), "terms_as_vec": (listspec, listed),
         "zero": (zerospec, None), "set_to_zero": (clearspec, None), "is_zero": (iszero, None)}


def C09(F, tier):
    default = [d for d in F.fns if F.fns[d]["name"] == "is_zero" and F.fns[d]["path"].endswith("SizedPolynomial::is_zero")]
    for im, t, s, r, ms in impls(F, "SizedPolynomial"):
        if not ispoly(s):
            continue
        for n, fid in ms.items():
            if n in SIZED:
                sp, post = SIZED[n]
                yield lambda fid=fid, sp=sp, post=post, n=n: run_ob(F, "C09", fid, sp, n, post=post, prep=small_degrees)
        if "is_zero" not in ms:
            for fid in default:
                yield lambda fid=fid, s=s, im=im: run_ob(F, "C09", fid, iszero, "is_zero of %s" % show_ty(s), subst={"Self": s, "N": im["targs"][1]}, prep=small_degrees)
    for fid, f in inherent(F, "ordered_term_iter"):
        if f["body"]["argc"] == 1 and ispoly(f["body"]["locals"][1]):
            yield lambda fid=fid: run_ob(F, "C09", fid, listspec, "ordered_term_iter", post=listed, prep=small_degrees)
    for fid, f in inherent(F, "as_term"):
        yield lambda fid=fid: run_ob(F, "C09", fid, asterm, "as_term")
    for fid, f in inherent(F, "new"):
        if f["path"].startswith("terms::Term::") and f["body"]["argc"] == 2:
            yield lambda fid=fid: run_ob(F, "C09", fid, newterm, "Term::new")


# ------------------------------------------------------------------ equality
def eqspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    v = c.I.deref(o.st, o.v)
    if not isinstance(v, BoolV):
        yield ("unknown", "result is not a boolean: %r" % (v,))
        return
    d = o.st.decide(v.f)
    if d is None:
        raise Split(v.f)
    p = c.A[0] - c.A[1]
    if d:
        yield ("zero", p, "values reported equal denote the same polynomial")
    else:
        yield ("nonzero", p, "values reported different denote different polynomials")


def C10(F, tier):
    for im, t, s, r, ms in impls(F, "PartialEq"):
        if ispoly(s) and ispoly(r):
            for n, fid in ms.items():
                yield lambda fid=fid, n=n: run_ob(F, "C10", fid, eqspec, n, prep=small_degrees)


# ------------------------------------------------------------------ construction
def meaning(c, i):
    """the polynomial a constructor argument list stands for"""
    v = c.I.deref(c.init, c.args[i])
    s = sem(c.I, c.init, v)
    return s


def conspec(fn):
    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        r = sem(c.I, o.st, o.v)
        if r is None:
            yield ("unknown", "result is not a polynomial value: %s" % short(repr(o.v)))
            return
        w = fn(c, o)
        if w is None:
            yield ("unknown", "argument %r" % (c.args,))
            return
        yield ("zero", r - w, "the constructed value has the given coefficients")
    return spec


def termsum(c, o):
    """sum of an arbitrary list of (coefficient, degree) pairs"""
    v = c.I.deref(c.init, c.args[0])
    if isinstance(v, Arr):
        s = ZERO
        for x in v.items:
            s = s + x.fs[0].p * xpow(x.fs[1].l)
        return s
    if isinstance(v, ISeq) and v.it.t[0] == "terms":
        P = v.it.t[1]
        (b, fs), k = next(iter(full(P).t.items()))
        d = Lin.sym(("app", "deg " + P, Lin.sym(b[0][0])))
        return ring.Poly_term(b, tuple(x for x in fs if x[0] != X), k, xpow(d))
    return None


def addtermspec(sign, always):
    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        want = c.A[0] + (c.ring(1) if sign > 0 else -c.ring(1)) * xpow(c.lin(2))
        r = c.final(o, 0)
        if r is None:
            yield ("unknown", "receiver is not a polynomial value")
            return
        if always:
            yield ("zero", r - want, "exactly the term is added")
            return
        v = c.I.deref(o.st, o.v)
        if not (isinstance(v, Agg) and v.k == RES):
            yield ("unknown", "result %r" % (v,))
            return
        if v.v == 0:
            yield ("zero", r - want, "on Ok exactly the term is added (or subtracted)")
            kind = strip(c.tys[0]).get("p", "").rsplit("::", 1)[-1]
            if sign < 0 and kind in ("Polynomial", "SparsePolynomial") and negatable(o.st) is not True:
                try:
                    absent = not o.st.coef(c.A[0], c.lin(2)).t
                except (Split, GiveUp):
                    absent = False
                if absent:
                    yield ("zero", c.ring(1), "a type without negation subtracts only from a stored term")
            return
        yield ("zero", r - c.A[0], "on Err the receiver is unchanged")
        for x in errspec(c, o, v, sign):
            yield x
    return spec


def bounded(c):
    """(length) of a fixed-size dense polynomial, else None"""
    v = c.I.deref(c.init, c.args[0])
    if isinstance(v, Agg) and v.k.rsplit("::", 1)[-1] in ("LinearBinomial", "QuadraticTrinomial", "ArrayPolynomial") and isinstance(v.fs[0], Seq):
        return v.fs[0].n
    return None


CAN = ("atom", "can_negate")


def negatable(st):
    for f, b in st.bools.items():
        if f[0] == "atom" and "can_negate" in str(f[1]):
            return b
    return None


def errspec(c, o, v, sign):
    e = enum(c, c.I.deref(o.st, v.fs[0]))
    if e is None:
        yield ("unknown", "error %r" % (v.fs[0],))
        return
    n = bounded(c)
    kind = strip(c.tys[0])["p"].rsplit("::", 1)[-1]
    k, cf = c.lin(2), c.ring(1)
    if e[0] == "DegreeOutOfBounds" and n is not None:
        yield ("form", ge(k - n), "DegreeOutOfBounds only for a degree that does not fit")
    elif e[0] == "TooManyTerms" and kind == "Monomial":
        m = c.I.deref(c.init, c.args[0])
        yield ("form", fnot(eq(k - m.fs[1].l)), "TooManyTerms only when the degrees differ")
        yield ("form", fnot(zf(m.fs[0].p)), "TooManyTerms only when a term is already stored")
    elif e[0] == "CanNotNegate" and sign < 0:
        b = negatable(o.st)
        if b is not False:
            yield ("fail", "CanNotNegate although the type can negate", "CanNotNegate only for types without negation")
        else:
            yield ("zero", o.st.coef(c.A[0], k), "CanNotNegate only when there is nothing to subtract from")
    else:
        yield ("fail", "error %s" % e[0], "the error describes the violated constraint")


def C12(F, tier):
    for im, t, s, r, ms in impls(F, "MutablePolynomial"):
        for n, fid in ms.items():
            if n in ("try_add_term", "try_sub_term"):
                yield lambda fid=fid, n=n: run_ob(F, "C12", fid, addtermspec(1 if n == "try_add_term" else -1, False), n, prep=small_degrees)


def vecspec(c, o):
    m = meaning(c, 0)
    return m if m is not None else c.ring(0)


def monospec(c, o):
    k, d = c.ring(0), c.lin(1)
    return None if k is None or d is None else k * xpow(d)


def scalarspec(c, o):
    return c.ring(0)


def trimspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    r = c.final(o, 0)
    if r is None:
        yield ("unknown", "receiver is not a polynomial value")
        return
    yield ("zero", r - c.A[0], "trimming changes no coefficient")


def C11(F, tier):
    for fid, f in inherent(F, "new"):
        b = f["body"]
        if not ispoly(b["locals"][0]):
            continue
        if b["argc"] == 1:
            yield lambda fid=fid: run_ob(F, "C11", fid, conspec(vecspec), "new")
        elif b["argc"] == 2:
            yield lambda fid=fid: run_ob(F, "C11", fid, conspec(monospec), "new", prep=None)
    for fid, f in inherent(F, "trim"):
        if f["body"]["argc"] == 1 and ispoly(f["body"]["locals"][1]):
            yield lambda fid=fid: run_ob(F, "C11", fid, trimspec, "trim")
    for im, t, s, r, ms in impls(F, "FreeSizePolynomial"):
        for n, fid in ms.items():
            if n == "add_term":
                yield lambda fid=fid, n=n: run_ob(F, "C11", fid, addtermspec(1, True), n)
            elif n == "from_terms":
                yield lambda fid=fid, n=n: run_ob(F, "C11", fid, conspec(termsum), n)
    for im, t, s, r, ms in impls(F, "From"):
        if not ispoly(s):
            continue
        for n, fid in ms.items():
            yield lambda fid=fid, s=s, r=r: run_ob(F, "C11", fid, conspec(vecspec), "%s from %s" % (show_ty(s), show_ty(r)))


PROPS = {"C09": C09, "C10": C10, "C11": C11, "C12": C12}


# ------------------------------------------------------------------ accumulation
def accspec(op):
    """the other operands accumulated into the last one"""
    def spec(c, o):
        k = len(c.A) - 1
        if o.k != "ret":
            yield panics(o)
            return
        v = c.I.deref(o.st, o.v)
        r = c.final(o, k)
        if not (isinstance(v, Agg) and v.k == RES) or r is None:
            yield ("unknown", "result %s" % short(repr(v)))
            return
        want = c.A[k]
        for i in range(k):
            yield ("zero", c.final(o, i) - c.A[i], "the operand is unchanged")
            want = op(want, c.A[i])
        if v.v == 0:
            yield ("zero", r - want, "on Ok the sink holds the exact result")
        elif strip(c.tys[k])["p"].endswith(("::Polynomial", "::SparsePolynomial")):
            e = enum(c, c.I.deref(o.st, v.fs[0]))
            if e and e[0] == "CanNegate":
                return
            if e and e[0] == "CanNotNegate" and op is sub_ and negatable(o.st) is False:
                return
            yield ("fail", "error %s from a free-size sink" % (e[0] if e else v), "free-size sinks take every term")
    return spec


def add_(a, b):
    return a + b


def sub_(a, b):
    return a - b


def mul_(a, b):
    return a * b


def macrospec(op):
    def spec(c, o):
        if o.k != "ret":
            yield panics(o)
            return
        r = sem(c.I, o.st, o.v)
        if r is None:
            yield ("unknown", "result is not a polynomial value")
            return
        if op in (sub_,) and negatable(o.st) is False:
            return
        w = c.A[0]
        for a in c.A[1:]:
            w = op(w, a)
        yield ("zero", r - w, "the macro yields the exact result")
    return spec


WIT = {"wit_add_poly": accspec(add_), "wit_sub_poly": accspec(sub_), "wit_mul_poly": accspec(mul_), "wit_add_into": accspec(add_), "wit_sub_into": accspec(sub_),
       "wit_macro_add": macrospec(add_), "wit_macro_sub": macrospec(sub_), "wit_macro_mul": macrospec(mul_),
       "wit_add3": macrospec(add_), "wit_sub3": macrospec(sub_), "wit_mul3": macrospec(mul_),
       "wit_add_into2": accspec(add_), "wit_sub_into2": accspec(sub_), "wit_mul_into2": accspec(mul_)}


def C13(F, tier):
    found = False
    for fid, f in inherent(F, *WIT):
        if f["path"].startswith("zz_witness"):
            found = True
            yield lambda fid=fid, f=f: run_ob(F, "C13", fid, WIT[f["name"]], "%s (%s)" % (f["name"][4:], ", ".join(show_ty(t) for t in f["body"]["locals"][1:f["body"]["argc"] + 1])), prep=small_degrees)
    if not found:
        yield lambda: [Res("witness module", "accumulation", UNKNOWN, "the witness module does not compile against this tree")]


PROPS["C13"] = C13
