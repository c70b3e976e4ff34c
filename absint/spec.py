"""Obligation harness: symbolic inputs, meaning of polynomial values, and the
decision PROVED / REFUTED / UNKNOWN for an equality of meanings."""
from .lin import Lin, L
from . import ring
from .ring import Poly, ZERO, ONE, X, full, el, sym, fresh, emb, xpow, sum_range
from .values import *
from .state import State, Split, GiveUp, Stats, plain
from .interp import Interp, Out, INT_RANGE
from .facts import ty_subst


def tname(t):
    k = t.get("k")
    if k == "adt":
        return t["p"].rsplit("::", 1)[-1]
    if k == "ref":
        return "&" + tname(t["t"])
    if k in ("int", "float", "param"):
        return t["n"]
    if k == "tuple":
        return "(" + ",".join(tname(x) for x in t["a"]) + ")"
    if k in ("slice", "array"):
        return "[" + tname(t["t"]) + "]"
    return k or "?"


def show_ty(t):
    k = t.get("k")
    if k == "adt":
        a = [show_ty(x) for x in t.get("a", []) if isinstance(x, dict) and x.get("p", "") != "alloc::alloc::Global"]
        return t["p"].rsplit("::", 1)[-1] + ("<" + ", ".join(a) + ">" if a else "")
    if k == "ref":
        return "&" + ("mut " if t.get("m") else "") + show_ty(t["t"])
    return tname(t)


def isvec(t):
    return t.get("k") == "adt" and t["p"].endswith("::Vec")


def ismap(t):
    return t.get("k") == "adt" and t["p"].endswith("::BTreeMap")


def isnum(t):
    return t.get("k") in ("param", "float", "int")


class Mk:
    """builds arbitrary well-typed inputs"""

    def __init__(self, I, st):
        self.I = I
        self.st = st

    def make(self, t, name, top=True):
        I, st = self.I, self.st
        k = t.get("k")
        if k == "ref":
            v = self.make(t["t"], name)
            return Ref(I.alloc(st, v, "in"))
        if k == "param":
            return RingV(sym(name))
        if k == "float":
            return RingV(sym(name + ":" + t["n"]))
        if k == "int" and I.shape is not None:
            return IntV(Lin(I.shape.int(t["n"])), t["n"])
        if k == "int":
            lo, hi = INT_RANGE[t["n"]]
            st.add_lin(Lin.sym(name) - lo)
            if t["n"] not in ("usize", "u64", "u128", "i128"):
                st.add_lin(Lin(hi) - Lin.sym(name))
            return IntV(Lin.sym(name), t["n"])
        if k == "bool":
            return BoolV(("atom", "in", name))
        if k == "tuple":
            return Agg("tuple", 0, [self.make(x, "%s.%d" % (name, i)) for i, x in enumerate(t["a"])])
        if isvec(t) or k == "slice":
            e = t["a"][0] if isvec(t) else t["t"]
            if isnum(e):
                if I.shape is not None:
                    return self.seq(name, Lin(I.shape.length()), suffix(e))
                return self.seq(name, Lin.sym("len " + name), suffix(e))
            if e.get("k") == "tuple" and len(e["a"]) == 2 and isnum(e["a"][0]) and I.shape is not None:
                return Arr([Agg("tuple", 0, (RingV(el(name, i)), IntV(Lin(I.shape.int("usize"))))) for i in range(I.shape.length())])
            if e.get("k") == "tuple" and len(e["a"]) == 2 and isnum(e["a"][0]):
                n = Lin.sym("len " + name)
                st.add_lin(n)
                st.sup[name] = n
                return ISeq(IterV(("terms", name, n)))
            return Top("input vec")
        if k == "array":
            n = I.const_len_ty(t["n"]) if hasattr(I, "const_len_ty") else arrlen(t["n"])
            if n is not None and not n.isconst() and I.shape is not None:
                n = Lin(I.shape.const(n))
            if isnum(t["t"]) and n is not None:
                return self.seq(name, n, suffix(t["t"]))
            return Top("input array")
        if ismap(t):
            P = name + suffix(t["a"][1])
            st.sup[P] = None
            if I.shape is not None:
                ks = I.shape.keys()
                st.sup[P] = Lin(max(ks) + 1 if ks else 0)
                lo = 0
                for i in sorted(ks):
                    if lo < i:
                        st.add_zr(P, Lin(lo), Lin(i))
                    lo = i + 1
                p = ZERO
                for i in ks:
                    p = p + el(P, i) * xpow(i)
                return MapV(p, ks)
            return MapV(full(P))
        if k == "adt":
            a = I.F.adt_by_path.get(t["p"])
            if a is None:
                if t["p"].endswith("Complex"):
                    return Agg("Complex", 0, (RingV(sym(name + ".re")), RingV(sym(name + ".im"))))
                if t["p"].endswith("PhantomData"):
                    return Agg(t["p"], 0, ())
                if t["p"].endswith("Formatter"):
                    return Trace(())
                return Top("input %s" % t["p"])
            if len(a["variants"]) != 1:
                return Top("input enum")
            sub = generics(t, a, I.F)
            fs = a["variants"][0]["f"]
            one = len(fs) == 1
            return Agg(t["p"], 0, [self.make(ty_subst(f[1], sub), name if one else "%s.%s" % (name, f[0])) for f in fs])
        return Top("input %s" % k)

    def seq(self, name, n, suf=""):
        P = name + suf
        if n.isconst():
            p = ZERO
            ks = self.I.shape.mask(n.c) if self.I.shape is not None else None
            if ks is not None:
                lo = 0
                for i in sorted(ks) + [n.c]:
                    if lo < i:
                        self.st.add_zr(P, Lin(lo), Lin(i))
                    lo = i + 1
            for i in range(n.c) if ks is None else sorted(ks):
                if ks is not None:
                    self.st.add_nz(el(P, i))
                p = p + el(P, i) * xpow(i)
            self.st.sup[P] = n
            return Seq(n, p)
        self.st.add_lin(n)
        self.st.sup[P] = n
        return Seq(n, full(P))


def suffix(t):
    return ":" + t["n"] if t.get("k") in ("float", "int") else ""


def arrlen(n):
    if isinstance(n, int):
        return Lin(n)
    if n.get("k") == "int":
        return Lin(n["v"])
    if n.get("k") == "param":
        return Lin.sym("const " + n["n"])
    return None


def generics(t, a, F):
    """map the ADT's own parameter names to t's arguments"""
    names = {}
    for v in a["variants"]:
        for f in v["f"]:
            collect_params(f[1], names)
    out = {}
    for n, i in names.items():
        if i is not None and i < len(t["a"]):
            out[n] = t["a"][i]
    # const parameters carry no index: matched in order
    cs = [n for n, i in names.items() if i is None]
    ca = [x["c"] for x in t["a"] if isinstance(x, dict) and x.get("k") == "const"]
    if len(cs) == len(ca) == 1 and ca[0].get("k") == "int":
        out[cs[0]] = ca[0]
    return out


def collect_params(t, acc):
    if isinstance(t, dict):
        if t.get("k") == "param":
            acc[t["n"]] = t.get("i")
        for v in t.values():
            collect_params(v, acc)
    elif isinstance(t, list):
        for v in t:
            collect_params(v, acc)


POLYS = ("Polynomial", "SparsePolynomial", "Monomial", "LinearBinomial", "QuadraticTrinomial", "ArrayPolynomial")


def ispoly(t):
    while t.get("k") == "ref":
        t = t["t"]
    return t.get("k") == "adt" and t["p"].rsplit("::", 1)[-1] in POLYS and t["p"].startswith("polynomial::")


def sem(I, st, v):
    """the polynomial a value denotes, as a generating function in X"""
    v = I.deref(st, v)
    if isinstance(v, Agg) and isinstance(v.k, str):
        b = v.k.rsplit("::", 1)[-1]
        if b in POLYS and v.k.startswith("polynomial::"):
            if b == "Monomial":
                c, d = v.fs
                if isinstance(c, RingV) and isinstance(d, IntV):
                    return c.p * xpow(d.l)
                if isinstance(c, IntV) and isinstance(d, IntV):
                    return emb(c.l) * xpow(d.l)
                return None
            return sem(I, st, v.fs[0])
        if b == "Integral":
            return sem(I, st, v.fs[0])
    if isinstance(v, Seq):
        return v.p
    if isinstance(v, MapV):
        return v.p
    return None
