"""C14: the numeric capability layer (numerics.rs): what each per-type table entry promises."""
from .oblig import *
from .values import INT_RANGE
from .props_obs import enum
from . import ring
import math

FLOATS = ("f32", "f64")
LEAST = {"f32": 1 << 24, "f64": 1 << 52}     # every integer up to here has to be accepted
KNOWN_FN = ("abs", "sqrt", "cbrt")


def boolean(c, o):
    v = c.I.deref(o.st, o.v)
    return v.f if isinstance(v, BoolV) else None


def iff(c, o, want):
    """the result is true exactly when `want`"""
    f = boolean(c, o)
    if f is None:
        yield ("unknown", "result %r is not a decided boolean" % (o.v,))
        return
    d = o.st.decide(f)
    if d is None:
        raise Split(f)
    yield ("form", want if d else fnot(want), "answers %s only when that is so" % ("true" if d else "false"))


def numval(c, o):
    v = c.I.deref(o.st, o.v)
    if isinstance(v, IntV):
        return v.l
    if isinstance(v, RingV):
        return v.p
    return None


def boom(o):
    return ("fail", "reaches a panic (%s)" % (o.v.get("kind") if isinstance(o.v, dict) else o.v), "does not panic")


def neg_one(c, o):
    if o.k != "ret":
        yield boom(o)
        return
    a = c.lin(0)
    want = eq(a + 1) if a is not None else zf(o.st.norm(c.ring(0) + ring.ONE))
    for x in iff(c, o, want):
        yield x


def positive(c, o):
    if o.k != "ret":
        yield boom(o)
        return
    a = c.lin(0)
    want = ge(a - 1) if a is not None else ("pos", o.st.simp(c.ring(0)))
    for x in iff(c, o, want):
        yield x


def can_negate(signed):
    def spec(c, o):
        if o.k != "ret":
            yield boom(o)
            return
        for x in iff(c, o, TRUE if signed else FALSE):
            yield x
    return spec


def fnval(c, o, want, what):
    v = numval(c, o)
    if not isinstance(v, ring.Poly):
        yield ("unknown", "result %r" % (o.v,))
        return
    v = o.st.norm(v)
    if (v - want).iszero():
        yield ("zero", v - want, what)
        return
    try:
        for x in (4.0, -9.0, 2.25, -8.0, 0.0):
            p, q = evalp(v, x), evalp(want, x)
            if not (p == q or abs(p - q) < 1e-9):
                yield ("fail", "for the argument %s the result is %s instead of %s" % (x, p, q), what)
                return
    except (KeyError, ValueError, ZeroDivisionError):
        pass
    yield ("unknown", "result %s" % v)


def evalp(p, x):
    """value of a polynomial in one scalar and known functions of it"""
    r = 0.0
    for (b, fs), k in p.t.items():
        if b:
            raise KeyError
        t = float(k)
        for a, e in fs:
            if not e.isconst():
                raise KeyError
            if a[0] == "sym":
                w = x
            elif a[0] == "fn" and a[1] in KNOWN_FN:
                w = evalp(a[2], x)
                if a[1] == "abs":
                    w = abs(w)
                elif a[1] == "sqrt":
                    w = math.sqrt(w) if w >= 0 else float("nan")
                else:
                    w = math.copysign(abs(w) ** (1.0 / 3), w)
            else:
                raise KeyError
            t *= w ** e.c
        r += t
    return r


def abs_(ty):
    def spec(c, o):
        if ty in FLOATS:
            if o.k != "ret":
                yield boom(o)
                return
            a = c.ring(0)
            v = numval(c, o)
            neg, pos = ("pos", o.st.simp(-a)), ("pos", o.st.simp(a))
            if isinstance(v, ring.Poly) and (o.st.decide(neg) is True or o.st.decide(pos) is False):
                w = -a
            elif isinstance(v, ring.Poly) and (o.st.decide(pos) is True or o.st.decide(neg) is False):
                w = a
            else:
                w = ring.fn("abs", a)
            if isinstance(v, ring.Poly) and (v - ring.fn("abs", a)).iszero():
                w = ring.fn("abs", a)
            for x in fnval(c, o, w, "the magnitude of the argument"):
                yield x
            return
        a = c.lin(0)
        if o.k != "ret":
            # the magnitude of MIN has no representation
            yield ("form", eq(a - INT_RANGE[ty][0]) if ty[0] == "i" else FALSE, "does not panic for a representable magnitude")
            return
        v = numval(c, o)
        if not isinstance(v, Lin):
            yield ("unknown", "result %r" % (o.v,))
            return
        d = o.st.decide(ge(a))
        if d is None:
            raise Split(ge(a))
        yield ("form", eq(v - a) if d else eq(v + a), "the magnitude of the argument")
    return spec


def pow_(c, o):
    if o.k != "ret":
        yield ("unknown", "panics")
        return
    v = numval(c, o)
    if not isinstance(v, ring.Poly):
        yield ("unknown", "result %r" % (o.v,))
        return
    a = c.base
    want = ring.ppow(a, c.lin(1))
    yield ("zero", v - want, "the argument to the power of the exponent")


def as_ring(ty):
    def prep(c):
        v = c.args[0]
        if isinstance(v, RingV):
            c.base = v.p
        else:
            c.base = ring.sym("a:" + ty)
            c.args[0] = RingV(c.base)
    return prep


def unary(fs):
    def spec(c, o):
        if o.k != "ret":
            yield boom(o)
            return
        a = c.ring(0)
        for f in fs:
            a = ring.fn(f, a)
        for x in fnval(c, o, a, "%s of the argument" % " of ".join(reversed(fs))):
            yield x
    return spec


WIDE = ("u128", "i128")


def exact_form(c, o, v, a, ty):
    """items showing that the returned value is the integer a, exactly"""
    if isinstance(v, Lin):
        yield ("form", eq(v - a), "the converted value is the argument")
        return
    if not isinstance(v, ring.Poly):
        yield ("unknown", "result %r" % (v,))
        return
    v = o.st.norm(v)
    if (v - emb(a)).iszero():
        yield ("zero", v - emb(a), "the converted value is the argument")
        return
    r = ring.fn("round:" + ty, emb(a))
    if not (v - r).iszero():
        if any(x[0] == "fn" for x in v.atoms()):
            yield ("unknown", "result %s" % v)
        else:
            yield ("zero", v - emb(a), "the converted value is the argument")
        return
    # a possibly rounded value: the partition must show it came back unchanged
    for t in WIDE:
        w = Lin.sym(("f2i", t, r))
        if o.st.decide(eq(w - a)) is True:
            yield ("form", eq(w - a), "the converted value comes back as the argument")
            return
    for t in ("usize", "u64"):
        w = Lin.sym(("f2i", t, r))
        if o.st.decide(eq(w - a)) is True:
            # saturates at 2^64-1, which rounding reaches
            if o.st.decide(ge(Lin((1 << 64) - 2) - a)) is True:
                yield ("form", eq(w - a), "the converted value comes back as the argument")
            else:
                yield ("fail", "for the argument usize::MAX the value rounds up to 2^64, which the saturating cast takes back to usize::MAX: an inexact value passes for an exact one", "the converted value is the argument")
            return
    if o.st.approx:
        yield ("unknown", "approximate partition")
        return
    bits = c.I.FLOAT_EXACT[ty]
    if o.st.decide(ge(a - bits)) is not False and not any("f2i" in repr(f) or "round" in repr(f) for f in o.st.path):
        yield ("fail", "arguments above 2^%d reach this return and not all of them are %s values" % (bits.bit_length() - 1, ty), "the converted value is the argument")
    else:
        yield ("unknown", "rounded value not shown exact")


def result(c, o):
    v = c.I.deref(o.st, o.v)
    if isinstance(v, Agg) and isinstance(v.k, str) and v.k.split("::")[-1] == "Result":
        x = v.fs[0] if v.fs else None
        x = c.I.deref(o.st, x) if x is not None else None
        return ("Ok" if v.v == 0 else "Err"), x
    return None


def conv(ty, exact):
    def spec(c, o):
        if o.k != "ret":
            yield boom(o)
            return
        a = c.lin(0)
        r = result(c, o)
        if r is None:
            yield ("unknown", "result %r" % (o.v,))
            return
        isfl = ty in FLOATS
        if r[0] == "Ok":
            x = r[1]
            x = x.l if isinstance(x, IntV) else x.p if isinstance(x, RingV) else x
            if isfl and not exact:
                m = c.I.FLOAT_EXACT[ty]
                yield ("form", ge(Lin(m) - a), "accepts only integers up to 2^%d, below which every integer is exact" % (m.bit_length() - 1))
            for y in exact_form(c, o, x, a, ty):
                yield y
            return
        if not isfl:
            yield ("form", ge(a - INT_RANGE[ty][1] - 1), "rejects only what the type cannot hold")
        elif not exact:
            yield ("form", ge(a - LEAST[ty] - 1), "rejects only integers beyond 2^%d" % (LEAST[ty].bit_length() - 1))
        else:
            if o.st.decide(ge(Lin(c.I.FLOAT_EXACT[ty]) - a)) is True:
                yield ("fail", "rejects an integer the type holds exactly", "rejects only what the type cannot hold exactly")
                return
            rr = ring.fn("round:" + ty, emb(a))
            for t in WIDE + ("usize", "u64"):
                if o.st.decide(eq(Lin.sym(("f2i", t, rr)) - a)) is False:
                    yield ("form", TRUE, "rejects only what does not come back unchanged")
                    return
            yield ("unknown", "rejection not tied to a round trip")
    return spec


def C14(F, tier):
    def num(trait):
        for im, t, s, r, ms in impls(F, trait):
            ty = tname(s)
            for n, fid in sorted(ms.items()):
                yield ty, n, fid
    P = "C14"
    for tr, mk in (("IsNegativeOne", lambda ty: neg_one), ("IsPositive", lambda ty: positive),
                   ("CanNegate", lambda ty: can_negate(ty[0] != "u")), ("Abs", abs_),
                   ("Cbrt", lambda ty: unary(["cbrt"])),
                   ("TryFromUsizeContinuous", lambda ty: conv(ty, False)),
                   ("TryFromUsizeExact", lambda ty: conv(ty, True))):
        for ty, n, fid in num(tr):
            yield lambda fid=fid, ty=ty, mk=mk, tr=tr: run_ob(F, P, fid, mk(ty), "%s for %s" % (tr, ty))
    for ty, n, fid in num("PowUsize"):
        yield lambda fid=fid, ty=ty: run_ob(F, P, fid, pow_, "PowUsize for %s" % ty, prep=as_ring(ty))
    for ty, n, fid in num("AbsSqrt"):
        if ty in FLOATS:
            yield lambda fid=fid, ty=ty: run_ob(F, P, fid, unary(["abs", "sqrt"]), "AbsSqrt for %s" % ty)


PROPS = {"C14": C14}
