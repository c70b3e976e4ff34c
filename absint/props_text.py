"""C15: Display.  The formatter is a trace of what has been written: literal text, coefficients
and degrees.  The trace is read back with the grammar of polynomial text and must denote the
value being shown, in canonical form."""
from .oblig import *
from .props_arith import integral_targets
from . import ring

INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


class Bad(Exception):
    pass


class Odd(Exception):
    """a trace the reader does not understand (not judged)"""


def tokens(ev):
    for e in ev:
        if e[0] == "lit":
            for ch in e[1]:
                yield ch
        elif e[0] == "show":
            v = e[1]
            if isinstance(v, RingV):
                yield ("num", v.p)
            elif isinstance(v, IntV):
                yield ("int", v.l)
            else:
                raise Odd("shows %r" % (v,))
        elif e[0] == "fmt" and e[3] == "new_display" and isinstance(e[1], RingV):
            o = dict(e[2])
            if "precision" in o:
                raise Bad("a coefficient is written with %d decimals only" % o["precision"])
            raise Odd("format options %r" % o)
        elif e[0] == "fmt" and e[3] == "new_display" and isinstance(e[1], IntV) and set(dict(e[2])) == {"precision"}:
            yield ("int", e[1].l)
        else:
            raise Odd("event %r" % (e,))


def read(ev):
    """-> [(sign, coefficient or None, degree or None(no x), exponent written?)]"""
    ts = list(tokens(ev))
    i = 0
    out = []

    def lit(s):
        nonlocal i
        if ts[i:i + len(s)] == list(s):
            i += len(s)
            return True
        return False
    first = True
    while i < len(ts) or first:
        sign = 1
        if first:
            if lit("-"):
                sign = -1
        else:
            if lit(" + "):
                pass
            elif lit(" - "):
                sign = -1
            else:
                raise Bad("terms are not separated by ' + ' or ' - '")
        first = False
        c = None
        if i < len(ts) and isinstance(ts[i], tuple):
            c = ts[i]
            if c[0] == "int":
                c = ("num", emb(c[1]))
            c = c[1]
            i += 1
        else:
            s = ""
            while i < len(ts) and isinstance(ts[i], str) and ts[i].isdigit():
                s += ts[i]
                i += 1
            if s:
                c = ring.Poly.const(int(s))
        d, wrote = None, False
        if lit("x"):
            d = Lin(1)
            if lit("^"):
                wrote = True
                if i < len(ts) and isinstance(ts[i], tuple) and ts[i][0] == "int":
                    d = ts[i][1]
                    i += 1
                else:
                    s = ""
                    while i < len(ts) and isinstance(ts[i], str) and ts[i].isdigit():
                        s += ts[i]
                        i += 1
                    if not s:
                        raise Bad("'^' is not followed by an exponent")
                    d = Lin(int(s))
        elif c is None:
            raise Bad("a term with neither a coefficient nor x")
        out.append((sign, c, d, wrote))
    return out


def show(ev):
    return "".join(e[1] if e[0] == "lit" else "{...}" if e[0] == "fmt" else "{%s}" % (e[1].p if isinstance(e[1], RingV) else e[1].l if isinstance(e[1], IntV) else e[1]) for e in ev)


def settle(st, ps):
    """|q| is q or -q: partition on the sign of every magnitude in sight"""
    qs = {}
    for p in list(ps) + list(st.zs) + list(st.nz) + [q for f in st.path for q in polys_of(f)]:
        for a in p.atoms():
            if a[0] == "fn" and a[1] == "abs":
                qs[a] = a[2]
    for a, q in qs.items():
        f = ("pos", st.simp(q))
        d = st.decide(f)
        if d is None:
            e = st.decide(("pos", st.simp(-q)))
            if e is None:
                raise Split(f)
            d = not e
        st.add_zero(ring.fn("abs", q) - (q if d else -q))


def unabs(st, p):
    """replace |q| by q or -q where the partition knows the sign of q"""
    def f(a):
        if a[0] == "fn" and a[1] == "abs":
            q = a[2]
            if st.decide(("pos", st.simp(q))) is True or st.decide(("pos", st.simp(-q))) is False:
                return q
            if st.decide(("pos", st.simp(q))) is False or st.decide(("pos", st.simp(-q))) is True:
                return -q
        return None
    return p.map_atoms(f)


def tolin(c):
    """the integer a coefficient shows, when it is one"""
    l = Lin(0)
    for (b, fs), k in c.t.items():
        if b or k != int(k):
            return None
        if not fs:
            l = l + int(k)
        elif len(fs) == 1 and fs[0][0][0] == "emb" and fs[0][1] == Lin(1):
            l = l + Lin.sym(fs[0][0][1]) * int(k)
        else:
            return None
    return l


def isval(st, c, k):
    """formula: the coefficient c is k"""
    l = tolin(c)
    if l is not None:
        return eq(l - k)
    return zf(st.norm(c - ring.Poly.const(k)))


def nonneg(st, c):
    """the text of c carries no sign of its own"""
    if tolin(c) is not None:
        return ge(tolin(c))
    k = c.constval()
    if k is not None:
        return TRUE if k >= 0 else FALSE
    if len(c.t) == 1:
        ((b, fs), kk), = c.t.items()
        if not b and kk > 0 and all(a[0] == "fn" and a[1] == "abs" for a, e in fs):
            return TRUE
    return for_(("pos", st.simp(c)), fnot(("pos", st.simp(-c))))


def canon(st, terms, lead=True, many=False):
    """items: the terms are written canonically and in falling degree"""
    prev = None
    for n, (sg, c, d, wrote) in enumerate(terms):
        alone = len(terms) == 1 and d is None and lead and not many
        if wrote:
            yield ("form", ge(d - 2), "exponents 0 and 1 are not written")
        if c is not None:
            if n > 0 or sg < 0 or not lead:
                yield ("form", nonneg(st, c), "the sign is written once")
            if d is not None:
                yield ("form", fnot(isval(st, c, 1)), "a coefficient of one is not written before x")
                if n == 0 and lead and sg > 0 and c.constval() is None and not (nonneg(st, c) == TRUE):
                    yield ("form", fnot(isval(st, c, -1)), "a leading coefficient of minus one is written as '-'")
        dd = d if d is not None else Lin(0)
        if prev is not None:
            yield ("form", ge(prev - dd - 1), "terms are written in falling degree")
        prev = dd
        if not alone and c is not None:
            yield ("form", fnot(isval(st, unabs(st, c), 0)), "zero terms are not written")


def denote(st, terms):
    p = ring.ZERO
    for sg, c, d, _ in terms:
        q = unabs(st, c) if c is not None else ring.ONE
        p = p + q.scale(sg) * (xpow(d) if d is not None else ring.ONE)
    return p


def loop(st, rep):
    """terms written by a loop: iteration j writes at most one, T(j) in total"""
    _, j, lo, hi, alts = rep
    parts = []
    for conds, ev, zs, nzs in alts:
        if any(e[0] == "rep" for e in ev):
            raise Odd("nested loops write")
        s = st.copy()
        s.add_lin(Lin.sym(j) - lo)
        s.add_lin(hi - 1 - Lin.sym(j))
        ss = [s]
        for f in conds:
            ss = [y for x in ss for y in x.assume(f, True)]
        ts = read((("lit", "0"),) + tuple(ev))[1:]
        if len(ts) > 1:
            raise Odd("several terms in one iteration")
        for s in ss:
            for q in zs:
                s.add_zero(q)
            for q in nzs:
                s.add_nz(q)
            if not s.feasible() or contradictory(s):
                continue

            def go(x):
                settle(x, [c for _, c, _, _ in ts if c is not None])
                return None
            for x, _ in split_run(s, go):
                parts.append((x, ts))
    T = D = None
    for s, ts in parts:
        if ts and ts[0][1] is not None and ts[0][2] is not None and not ts[0][2].isconst():
            T, D = denote(s, ts), ts[0][2]
            break
    if T is None:
        # every degree written is a constant: the position shown tells the general one
        for s, ts in parts:
            if ts and ts[0][1] is not None:
                d = ts[0][2] if ts[0][2] is not None else Lin(0)
                for a in sorted(ts[0][1].atoms(), key=repr):
                    for e in ([a[2]] if a[0] == "el" else [b[2] for b in a[2].atoms() if b[0] == "el"] if a[0] == "fn" and a[1] == "abs" else []):
                        if not e.isconst() and s.entails(e - d) and s.entails(d - e):
                            T, D = denote(s, ts) * xpow(e - d), e
                if T is not None:
                    break
    if T is not None:
        items = [("form", ge(D - D.subst({j: Lin.sym(j) + 1}) - 1), "terms are written in falling degree")]
    else:
        for s, ts in parts:
            if ts and ts[0][1] is not None:
                T, D = denote(s, ts), ts[0][2] if ts[0][2] is not None else Lin(0)
                break
        if T is None or len({repr(ts[0][2]) for s, ts in parts if ts}) > 1:
            raise Odd("no general term")
        items = [("form", ge(lo + 1 - hi), "terms are written in falling degree")]
    for s, ts in parts:
        it = [("zero", denote(s, ts) - T, "an iteration writes its term")]
        if ts:
            it += list(canon(s, ts, False))
            it.append(("form", eq((ts[0][2] if ts[0][2] is not None else Lin(0)) - D), "terms are written in falling degree"))
        items.append(("sub", s, it))
    return T, D, items


def trace(c, o, i):
    t = c.I.deref(o.st, c.args[i])
    return t.ev if isinstance(t, Trace) else None


def isok(c, o):
    v = c.I.deref(o.st, o.v)
    return isinstance(v, Agg) and isinstance(v.k, str) and v.k.split("::")[-1] == "Result" and v.v == 0


def whole(I, st, args, subst, depth):
    """summary of a polynomial's Display (decided by its own obligation): writes its text"""
    p = sem(I, st, args[0])
    t = I.deref(st, args[1])
    if p is None or not isinstance(t, Trace):
        return None
    r = args[1]
    I.write(st, r.b, r.path, Trace(t.ev + (("poly", p),)))
    return [Out("ret", st, Agg("core::result::Result", 0, (UNIT,)))]


def antitext(c, o):
    """an antiderivative is written as its polynomial and ' + C', a zero one as 'C'"""
    if o.k != "ret":
        yield ("fail", "reaches a panic (%s)" % (o.v,), "showing a value does not panic")
        return
    ev = trace(c, o, 1)
    if ev is None:
        yield ("unknown", "the formatter is not tracked")
        return
    if not isok(c, o):
        yield ("fail", "reports an error although every write succeeded", "showing a value succeeds")
        return
    if any(e[0] not in ("lit", "poly") for e in ev):
        yield ("unknown", "text %r" % (ev,))
        return
    ps = [e[1] for e in ev if e[0] == "poly"]
    text = "".join(e[1] if e[0] == "lit" else "{}" for e in ev)
    if text == "C":
        yield ("zero", c.A[0], "'C' alone is written only for a zero antiderivative")
    elif text == "{} + C":
        yield ("zero", ps[0] - c.A[0], "the text denotes the antiderivative")
        yield ("nonzero", c.A[0], "a zero antiderivative is written 'C'")
    else:
        yield ("fail", "writes %r" % text, "an antiderivative is its polynomial and '+ C'")


def textspec(want, fi, lead=True, helper=False):
    """the text written denotes want(c)"""
    def spec(c, o):
        if o.k != "ret":
            if helper or isinstance(o.v, dict) and "Abs" in str(o.v.get("kind")):
                yield ("unknown", "panics: %s" % (o.v,))
            else:
                yield ("fail", "reaches a panic (%s)" % (o.v,), "showing a value does not panic")
            return
        ev = trace(c, o, fi)
        if ev is None:
            yield ("unknown", "the formatter is not tracked")
            return
        if not isok(c, o):
            yield ("fail", "reports an error although every write succeeded", "showing a value succeeds")
            return
        reps = ()
        for n, e in enumerate(ev):
            if e[0] == "rep":
                ev, reps = ev[:n], ev[n:]
                break
        if reps and (not ev or any(e[0] != "rep" for e in reps)):
            yield ("unknown", "text around a loop")
            return
        try:
            if lead:
                ts = read(ev)
            else:
                ts = read((("lit", "0"),) + ev)[1:]
                if len(ts) != 1:
                    raise Bad("%d terms" % len(ts))
        except Bad as e:
            yield ("fail", "writes %r: %s" % (show(ev), e), "the text is a polynomial")
            return
        except Odd as e:
            yield ("unknown", str(e))
            return
        settle(o.st, [cf for _, cf, _, _ in ts if cf is not None])
        p = denote(o.st, ts)
        for k in canon(o.st, ts, lead, many=bool(reps)):
            if not (helper and k[2] == "zero terms are not written"):
                yield k
        prev = ts[-1][2] if ts[-1][2] is not None else Lin(0)
        for n, rep in enumerate(reps):
            try:
                T, D, items = loop(o.st, rep)
            except Bad as e:
                yield ("fail", "a loop writes terms that are not ' + ' or ' - ' and a term: %s" % e, "the text is a polynomial")
                return
            except Odd as e:
                yield ("unknown", str(e))
                return
            for x in items:
                yield x
            _, j, lo, hi, _ = rep
            yield ("form", for_(ge(lo - hi), ge(prev - D.subst({j: lo}) - 1)), "terms are written in falling degree")
            prev = D.subst({j: hi - 1})
            if n + 1 < len(reps) and o.st.decide(ge(hi - lo - 1)) is not True:
                yield ("unknown", "text after a loop")
            p = p + ring.sum_range(j, lo, hi, T)
        w = want(c)
        top = ts[0][2] if ts[0][2] is not None else Lin(0)
        yield ("zero", o.st.window(w, top + 1, None), "nothing above the first term written")
        yield ("zero", p - o.st.window(w, Lin(0), top + 1), "the text denotes the value shown")
    return spec


def mono(c):
    return (c.ring(1) if c.ring(1) is not None else emb(c.lin(1))) * xpow(c.lin(2))


def attype(lead, ty):
    """a writer at a primitive integer type"""
    sp = textspec(mono, 0, lead, True)

    def spec(c, o):
        if o.k == "ret":
            for x in sp(c, o):
                yield x
        else:
            # MIN has no magnitude (reported separately)
            yield ("form", eq(c.lin(1) - INT_RANGE[ty][0]) if ty[0] == "i" and not lead else FALSE, "does not panic for a representable magnitude")
    return spec


def atmin(c, o):
    if o.k != "ret":
        yield ("fail", "panics (%s) for the most negative value" % o.v.get("kind"), "showing a value does not panic")


def C15(F, tier):
    P = "C15"
    lead = [fid for fid, f in F.fns.items() if f["path"] == "strings::write_leading_term"]
    trail = [fid for fid, f in F.fns.items() if f["path"] == "strings::write_trailing_term"]
    for fid in lead:
        yield lambda fid=fid: run_ob(F, P, fid, textspec(mono, 0, True, True), "leading term")
    for fid in trail:
        yield lambda fid=fid: run_ob(F, P, fid, textspec(mono, 0, False, True), "later term")
    for ty in INTS:
        sub = {"N": {"k": "int", "n": ty}}
        for fid in lead:
            yield lambda fid=fid, ty=ty, sub=sub: run_ob(F, P, fid, attype(True, ty), "leading term of %s" % ty, subst=sub, refine=False)
        for fid in trail:
            yield lambda fid=fid, ty=ty, sub=sub: run_ob(F, P, fid, attype(False, ty), "later term of %s" % ty, subst=sub, refine=False)
            if ty[0] == "i":
                yield lambda fid=fid, ty=ty, sub=sub: run_ob(F, P, fid, atmin, "later term at %s::MIN" % ty, subst=sub, refine=False)
    for im, t, s, r, ms in impls(F, "Display"):
        if not ispoly(strip(s)):
            continue
        fid = ms["fmt"]
        n = tname(strip(s))
        yield lambda fid=fid, n=n: run_ob(F, P, fid, textspec(lambda c: c.A[0], 1), "text of %s" % n)
    for im, t, s, r, ms in impls(F, "Display"):
        if strip(s).get("k") != "adt" or not strip(s)["p"].endswith("::Integral"):
            continue
        shown = {m["fmt"]: whole for _, _, q, _, m in impls(F, "Display") if ispoly(strip(q))}
        for Q in integral_targets(F):
            pn = strip(s)["a"][1].get("n", "P")
            yield lambda fid=ms["fmt"], Q=Q, pn=pn, shown=shown: run_ob(F, P, fid, antitext, "text of the antiderivative %s" % show_ty(Q), subst={pn: Q}, contracts=shown)


PROPS = {"C15": C15}
