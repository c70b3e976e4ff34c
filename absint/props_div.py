"""C08: division with remainder.

The coefficient type's division is only assumed to satisfy
(x - (x/y) y) / y = 0 for y != 0, true of machine integers (truncating
division) and of exact fields; the progress clause does not even assume that."""
from .oblig import *
from . import oblig
from .oblig import deep_norm, Pair
from .state import plain


def lead(st, p):
    """(exponent, coefficient) of the leading term of p, if the partition knows it"""
    if not p.t:
        return None
    cand = []
    for q in st.nz:
        for a in q.atoms():
            if a[0] == "el" and a[2] not in cand:
                cand.append(a[2])
    for (b, fs), k in p.t.items():
        e = dict(fs).get(X, Lin(0))
        if not b and e not in cand:
            cand.append(e)
    for e in cand:
        try:
            c = st.norm(st.coef(p, e))
            if st.decide(zf(c)) is False and not st.norm(st.window(p, e + 1, None)).t:
                return e, c
        except (Split, GiveUp):
            continue
    return None


def reduced(st, r, B):
    """items: nothing of the remainder can be divided any further"""
    b = lead(st, B)
    if b is None:
        yield ("unknown", "leading term of the divisor not located")
        return
    if plain(r) is not None and (st.covered(plain(r), b[0], None) or st.covered(plain(r), Lin(0), None)):
        return
    try:
        hi = st.norm(st.window(r, b[0], None))
    except (Split, GiveUp):
        hi = None
    if hi is not None and not hi.t:
        return
    x = lead(st, r)
    if x is not None:
        q = ring.div(x[1], b[1])
        try:
            q = deep_norm(st, q)
            if not q.t or st.decide(zf(q)) is True:
                return
        except (Split, GiveUp):
            pass

    def left(m, g):
        rr, bb = m.poly(r), m.poly(B)
        if not rr or not bb or max(rr) < max(bb):
            return False
        return m.quot(rr[max(rr)], bb[max(bb)]) != 0
    yield ("judged", st.window(r, b[0], None), "the remainder can not be divided any further", left)


def divspec(which):
    def spec(c, o):
        A, B = c.A[0], c.A[1]
        if o.k != "ret":
            yield ("zero", B, "panics only for the zero divisor")
            return
        v = c.I.deref(o.st, o.v) if o.v is not None else None
        q = r = None
        if which == "both":
            q, r = sem(c.I, o.st, v.fs[0]), sem(c.I, o.st, v.fs[1])
        elif which == "quot":
            q = sem(c.I, o.st, v)
        elif which == "rem":
            r = sem(c.I, o.st, v)
        elif which == "rem_assign":
            r = c.final(o, 0)
        if q is None and r is None:
            yield ("unknown", "result is not a polynomial value")
            return
        if q is not None and r is not None:
            yield ("zero", q * B + r - A, "dividend = quotient * divisor + remainder")
        yield ("nonzero", B, "the zero divisor is rejected")
        if r is not None and not contradictory(o.st):
            yield from reduced(o.st, r, B)
    return spec


def summary(log, like):
    """div_mod(x, y) answers fresh quotient and remainder contents; its own body is
    judged by its own obligation"""
    def go(I, st, args, subst, depth):
        x, y = I.deref(st, args[0]), I.deref(st, args[1])
        a, b = sem(I, st, x), sem(I, st, y)
        if a is None or b is None:
            return None
        names = fresh("QUOT"), fresh("REM")
        log[names[0]] = ("quotient", a, b)
        log[names[1]] = ("remainder", a, b)
        out = []
        for n in names:
            if like == "Polynomial":
                ln = Lin.sym(fresh("len"))
                st.add_lin(ln)
                st.sup[n] = ln
                out.append(Agg(x.k, 0, (Seq(ln, full(n)),)))
            else:
                st.sup[n] = None
                out.append(Agg(x.k, 0, (MapV(full(n)),)))
        return [Out("ret", st, Agg("tuple", 0, out))]
    return go


def wrapspec(which, log):
    part = "quotient" if which == "quot" else "remainder"
    whole = divspec(which)

    def spec(c, o):
        if o.k == "ret":
            r = c.final(o, 0) if which == "rem_assign" else sem(c.I, o.st, o.v)
            e = log.get(plain(r)) if r is not None else None
            if e is not None:
                if e[0] != part:
                    yield ("fail", "returns the %s, not the %s" % (e[0], part), "the operator returns the %s" % part)
                    return
                yield ("zero", e[1] - c.A[0], "the dividend is the left operand")
                yield ("zero", e[2] - c.A[1], "the divisor is the right operand")
                return
        yield from whole(c, o)
    return spec


def pairs(F):
    for a, b in (((0,), (0,)), ((0, 1), (0,)), ((0, 1), (0, 1)), ((1,), (0, 1)), ((2,), (0, 1)), ((0, 1, 2), (0, 1)), ((3,), (0, 2)), ((1, 4), (0, 3)), ((0,), (0, 1)), ((0, 2), (1,)), ((0, 1, 2), (0,)),
                 ((0, 1, 2), (0, 1, 2)), ((0, 1, 2, 3), (0, 1)), ((), (0,)), ((0,), ())):
        yield Pair(a, b)


def progress(F, fid):
    """every further round of the elimination loop lowers the degree, whatever the
    coefficient type's division rounds to"""
    f = F.fns[fid]
    name = "%s (%s)" % (f["path"], f["span"])
    Stats.ranks.clear()
    try:
        Ctx(F, fid)
    except GiveUp as e:
        return [Res(name, "progress", UNKNOWN, str(e))]
    own = {k: v for k, v in Stats.ranks.items() if str(k).startswith(f["path"])}
    if own and all(own.values()):
        return [Res(name, "progress", PROVED, None, "degree falls at every back edge of %s" % ", ".join(map(str, own)))]
    res = [Res(name, "progress", UNKNOWN, "no falling degree found for the elimination loop")]
    ring.INEXACT = True
    try:
        for s in list(pairs(F))[:3]:
            for r in oblig._run_ob(F, "C08", fid, ends, "progress", shape=s, rounds=s.rounds):
                if r.verdict == REFUTED:
                    return res + [r]
    except GiveUp:
        pass
    finally:
        ring.INEXACT = False
    return res


def ends(c, o):
    if o.k == "panic" and isinstance(o.v, dict) and ("rounds" in o.v["kind"] or "never" in o.v["kind"]):
        yield ("fail", showpanic(o.v), "every round of the elimination lowers the degree")


def C08(F, tier):
    con = {}
    log = {}
    for fid, f in inherent(F, "div_mod"):
        yield lambda fid=fid: run_ob(F, "C08", fid, divspec("both"), "div_mod", euclid=True, cand=pairs)
        yield lambda fid=fid: progress(F, fid)
        con[fid] = summary(log, tname(strip(f["body"]["locals"][1])))
    for fid, f in inherent(F, "floor_div"):
        yield lambda fid=fid: run_ob(F, "C08", fid, wrapspec("quot", log), "floor_div", euclid=True, contracts=con)
    for im, t, s, r, ms in impls(F, "Rem", "RemAssign", "Div", "DivAssign"):
        if not ispoly(s) or not ispoly(r):
            continue
        which = {"Rem": "rem", "RemAssign": "rem_assign", "Div": "quot", "DivAssign": "quot"}[t]
        for n, fid in ms.items():
            yield lambda fid=fid, which=which, t=t: run_ob(F, "C08", fid, wrapspec(which, log), t.lower(), euclid=True, contracts=con)


PROPS = {"C08": C08}
