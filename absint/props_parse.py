"""C16: parsing.  Term::from_str against the grammar of one term, the polynomial parsers
against the split of the text into signed pieces and the sum of their terms."""
import time
from .oblig import *
from .props_obs import enum
from .props_arith import panics
from .text import *
from .text import RET as _R
from . import ring
from .ring import ONE, ZERO


COARSE_SECONDS = 6


def reader(hist, polyty=None, coarse=0):
    def prep(c):
        t = c.I.text = prep.text = Text(coarse)
        t.polyty = polyty
        if polyty is not None:
            c.st0.add_lin(NLEN)
        h = hist()
        t.start = h
        c.st0.store[HIST] = h
        r = c.args[0]
        c.I.write(c.st0, r.b, r.path, TextV(Lin(0), NLEN))
        c.I.budget, c.I.maxstates = 400000, 20000
        if coarse:
            c.I.deadline = time.process_time() + COARSE_SECONDS
    return prep


def known(st, ty, w):
    """does the word parse on this path?  True / False / None"""
    k = w.key()
    if k in ("", "+", "-"):
        return False
    if all(not isinstance(x, Rest) and x.l.isconst() for x in w.items) and k.lstrip("+-").isdigit() and (k[0] in "+-" or k[0].isdigit()):
        v = k[0] == "-"
        if not v or ty == "usize":
            return not v
        d = st.decide(("atom", "parses", ty, k))
        return d is not False
    return st.decide(("atom", "parses", ty, k))


def value(w, ty):
    k = w.key()
    if all(not isinstance(x, Rest) and x.l.isconst() for x in w.items) and k[1 if k[0] in "+-" else 0:].isdigit():
        return ring.Poly.const(int(k)) if ty == "N" else Lin(int(k))
    return ring.sym("parse %s" % k) if ty == "N" else Lin.sym("parse %s as %s" % (k, ty))


def signone(w):
    k = w.key()
    return Word(w.items + (IntV(Lin(49), "char"),)) if k in ("+", "-") else w


def judge(st, h):
    """-> (errors the text read so far deserves, coefficient word or None, degree: int | Word)"""
    bad = []
    x = caret = False
    w0 = w1 = w2 = None
    for t in h.toks:
        if isinstance(t, Word):
            if caret:
                w2 = t
            elif x:
                w1 = t
            elif w0 is None:
                w0 = t
        elif t == "x":
            if x:
                bad.append("MoreThanOneX")
            elif w0 is not None and known(st, "N", signone(w0)) is False:
                bad.append("CoeffCouldNotBeParsed")
            x = True
        elif t == "^":
            if caret:
                bad.append("MultipleCarets")
            if not x:
                bad.append("CaretWithoutXInFront")
            if w1 is not None:
                bad.append("DegreeCouldNotBeParsed")
            caret = True
        else:
            bad.append(("UnexpectedChar", t[1]))
    deg = w2 if caret else w1
    if h.ended:
        if not x:
            if known(st, "N", w0 or Word()) is False:
                bad.append("CoeffCouldNotBeParsed")
        elif deg is None:
            if caret:
                bad.append("CaretWithoutDegree")
        elif known(st, "usize", deg) is False:
            bad.append("DegreeCouldNotBeParsed")
    if not x:
        return bad, w0 or Word(), 0
    return bad, (signone(w0) if w0 is not None else None), (1 if deg is None else deg)


def shown(h):
    return " ".join(t.key() if isinstance(t, Word) else t if isinstance(t, str) else "char %r" % (t[1].l,) for t in h.toks) or "(nothing)"


def termspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    st = o.st
    h = st.store[HIST]
    v = c.I.deref(st, o.v)
    if not (isinstance(v, Agg) and isinstance(v.k, str) and v.k.endswith("Result")):
        yield ("unknown", "result %r" % (v,))
        return
    bad, cw, deg = judge(st, h)
    if v.v == 1:
        e = enum(c, c.I.deref(st, v.fs[0]))
        if e is None:
            yield ("unknown", "error %r" % (v.fs[0],))
            return
        if e[0] == "UnexpectedChar":
            ch = c.I.deref(st, e[1][0])
            if not isinstance(ch, IntV):
                yield ("unknown", "error %r" % (e,))
            elif not any(isinstance(b, tuple) and st.decide(("eq", b[1].l - ch.l)) is True for b in bad):
                yield ("fail", "UnexpectedChar for the text %s" % shown(h), "a term is refused only for what is wrong with it")
            return
        if e[0] not in bad:
            yield ("fail", "%s for the text %s" % (e[0], shown(h)), "a term is refused only for what is wrong with it")
        return
    if bad or not h.ended:
        yield ("fail", "accepts %s%s" % (shown(h), "" if h.ended else " ..."), "text that is not a term is refused")
        return
    if isinstance(deg, Word) and known(st, "usize", deg) is None or cw is not None and known(st, "N", cw) is None:
        yield ("fail", "accepts %s without parsing it" % shown(h), "text that is not a term is refused")
        return
    t = enum(c, c.I.deref(st, v.fs[0]))
    if t is None:
        yield ("unknown", "term %r" % (v.fs[0],))
        return
    want = ONE if cw is None else value(cw, "N")
    if t[0] == "ZeroTerm":
        yield ("zero", want, "the coefficient is the number written (%s)" % shown(h))
        return
    co, d = c.I.deref(st, t[1][0]), c.I.deref(st, t[1][1])
    if not isinstance(co, RingV) or not isinstance(d, IntV):
        yield ("unknown", "term %r" % (t,))
        return
    yield ("zero", co.p - want, "the coefficient is the number written (%s)" % shown(h))
    dd = Lin(deg) if isinstance(deg, int) else value(deg, "usize")
    yield ("form", ("eq", d.l - dd), "the degree is the number written (%s)" % shown(h))
    yield ("form", fnot(zf(st.norm(want))), "a zero coefficient gives ZeroTerm")


def piece(I, st, args, subst, depth):
    """Term::from_str of a piece of the text"""
    v = I.deref(st, args[0])
    if not isinstance(v, TextV):
        return None
    h = st.store[HIST]
    if h.due is None:
        return answers(I, st, h.but(fault=h.fault or "text is parsed as a term that is not a piece"))
    res = []
    same = fand(("eq", v.lo - h.due[0]), ("eq", v.hi - h.due[1]))
    d = st.decide(same)
    if d is not True:
        for x in ([st.copy()] if d is False else st.copy().assume(fnot(same))):
            res += answers(I, x, h.but(fault=h.fault or "the piece parsed is not the one between the signs"))
    if d is not False:
        for x in ([st] if d is True else st.assume(same)):
            res += answers(I, x, h)
    return res


def answers(I, st, h):
    outs = []
    e = st.copy()
    e.store[HIST] = h.but(due=None, some="err")
    outs.append(Out("ret", e, err(StrV(("term error",)))))
    term = [a for p, a in I.F.adt_by_path.items() if p.endswith("terms::Term")][0]
    path = [p for p in I.F.adt_by_path if p.endswith("terms::Term")][0]
    names = [x["n"] for x in term["variants"]]
    z = st.copy()
    z.store[HIST] = h.but(due=None, some=True)
    outs.append(Out("ret", z, ok(Agg(path, names.index("ZeroTerm"), ()))))
    t = st
    co, d = ring.sym("coef"), Lin.sym("deg")
    if I.text.coarse:
        co, d = ring.sym(ring.fresh("coef")), Lin.sym(ring.fresh("deg"))
    for cell, val in t.store.items():
        acc = set()
        syms_any(val, acc)
        if "deg" in acc:
            raise GiveUp("term kept from an earlier piece")
    t.add_nz(co)
    t.add_lin(d)
    t.store[HIST] = h.but(due=None, some=True, total=h.total + co * ring.xpow(d))
    outs.append(Out("ret", t, ok(Agg(path, names.index("Term"), (RingV(co), IntV(d))))))
    return outs


def polyspec(c, o):
    if o.k != "ret":
        yield panics(o)
        return
    st = o.st
    h = st.store[HIST]
    v = c.I.deref(st, o.v)
    if not (isinstance(v, Agg) and isinstance(v.k, str) and v.k.endswith("Result")):
        yield ("unknown", "result %r" % (v,))
        return
    if h.fault:
        yield ("fail", h.fault, "the text is cut before each sign and every piece is parsed, in order")
        return
    if v.v == 1:
        e = enum(c, c.I.deref(st, v.fs[0]))
        if e is None:
            yield ("unknown", "error %r" % (v.fs[0],))
        elif e[0] == "TermFromString":
            if h.some != "err" or c.I.deref(st, e[1][0]) != StrV(("term error",)):
                yield ("fail", "TermFromString without a term that failed", "the error says what went wrong")
        elif e[0] == "NoTermsFound":
            if h.some or not h.ended or h.due is not None:
                yield ("fail", "NoTermsFound for a text with terms", "the error says what went wrong")
            else:
                yield ("form", ("eq", NLEN), "no terms only in the empty text")
        elif e[0] == "AddingTerm":
            if st.decide(("atom", "refused")) is not True:
                yield ("fail", "AddingTerm although the term was added", "the error says what went wrong")
                return
            w = variant(c.I.F, c.I.deref(st, e[1][0])) if e[1] else None
            why = [k[1] for k, b in st.bools.items() if b is True and k[0] == "atom" and str(k[1]).startswith("refused: ")]
            if w is None or not why:
                yield ("unknown", "reason %r" % (e[1],))
            elif "refused: " + w not in why:
                yield ("fail", "AddingTerm(%s) although the term was %s" % (w, why[0]), "the error says what went wrong")
        return
    if h.some == "err":
        yield ("fail", "a term that does not parse is ignored", "text that is not a polynomial is refused")
        return
    if st.decide(("atom", "refused")) is True:
        yield ("fail", "a term that does not fit is ignored", "text that is not a polynomial of this type is refused")
        return
    if not h.ended or h.due is not None:
        yield ("fail", "part of the text is ignored", "every piece of the text is parsed")
        return
    if not h.some:
        yield ("fail", "accepts a text without terms", "the empty text is refused")
        return
    yield ("zero", sem(c.I, st, v.fs[0]) - h.total, "the polynomial is the sum of the terms")


def C16(F, tier):
    P = "C16"
    fs = [(im, s, m["from_str"]) for im, tr, s, r, m in impls(F, "FromStr") if "from_str" in m]
    tf = None
    for im, s, fid in fs:
        if strip(s)["p"].endswith("terms::Term"):
            tf = fid
            yield lambda fid=fid: text_ob(F, P, fid, termspec, "term", lambda k: reader(TermHist, coarse=k))
    for im, s, fid in fs:
        if not strip(s)["p"].endswith("terms::Term"):
            ty = strip(s)
            con = {tf: piece}
            for im2, tr, s2, r2, m2 in impls(F, "MutablePolynomial"):
                if "try_add_term" in m2 and strip(s2).get("p") == ty["p"]:
                    con[m2["try_add_term"]] = refusing(F, m2["try_add_term"])
            yield lambda fid=fid, ty=ty, con=con: text_ob(F, P, fid, polyspec, "text of %s" % tname(ty), lambda k: reader(lambda: PolyHist(0, 0, total=ZERO), polyty=ty, coarse=k), contracts=con)


def variant(F, v):
    """name of a fieldless enum value"""
    if isinstance(v, Agg) and isinstance(v.k, str) and v.k in F.adt_by_path and not v.fs and isinstance(v.v, int):
        vs = F.adt_by_path[v.k]["variants"]
        if v.v < len(vs):
            return vs[v.v]["n"]
    return None


def refusing(F, fid):
    """run try_add_term, remembering a refusal"""
    def con(I, st, args, subst, depth):
        c = I.contracts.pop(fid)
        try:
            outs = I.call_fn(st, fid, args, subst, depth)
        finally:
            I.contracts[fid] = c
        res = []
        for o in outs:
            if o.k == "ret" and isinstance(o.v, Agg) and o.v.v == 1:
                o.st.bools[("atom", "refused")] = True
                w = variant(I.F, I.deref(o.st, o.v.fs[0]))
                if w is not None:
                    o.st.bools[("atom", "refused: " + w)] = True
            res.append(o)
        return res
    return con


def text_ob(F, prop, fid, spec, label, prep, **kw):
    p = prep(0)
    rs = run_ob(F, prop, fid, spec, label, refine=False, prep=p, **kw)
    if p.text.cut:
        rs.append(Res(rs[0].ob, label, UNKNOWN, "texts read on after an error are followed only to their end"))
    if all(r.verdict == PROVED for r in rs) or any(r.verdict == REFUTED for r in rs):
        return rs
    for k in (2, 3, 4):
        for r in run_ob(F, prop, fid, spec, label, refine=False, prep=prep(k), **kw):
            if r.verdict == REFUTED:
                return rs + [r]
    return rs


PROPS = {"C16": C16}
