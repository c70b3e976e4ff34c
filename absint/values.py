"""Abstract values."""
from .lin import Lin, L
from .ring import Poly


class V:
    __slots__ = ()

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(repr(getattr(self, s)) for s in self.__slots__) + ")"

    def key(self):
        return (type(self).__name__,) + tuple(_k(getattr(self, s)) for s in self.__slots__)

    def __eq__(self, o):
        if self is o:
            return True
        return type(self) is type(o) and all(getattr(self, s) == getattr(o, s) for s in self.__slots__)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())


def _k(x):
    if isinstance(x, V):
        return x.key()
    if isinstance(x, list):
        return tuple(_k(y) for y in x)
    return x


class IntV(V):
    """integer / char with mathematical value l (affine); ty: machine type"""
    __slots__ = ("l", "ty")

    def __init__(self, l, ty="usize"):
        self.l = L(l)
        self.ty = ty


class RingV(V):
    """element of the coefficient type"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class BoolV(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Agg(V):
    __slots__ = ("k", "v", "fs")

    def __init__(self, k, v, fs):
        self.k = k
        self.v = v
        self.fs = tuple(fs)


class Ref(V):
    __slots__ = ("b", "path")

    def __init__(self, b, path=()):
        self.b = b
        self.path = tuple(path)


class Seq(V):
    """Vec<N> / [N; k] / slice value: length n, coefficient generating function p,
    position i holds the coefficient of X^(n-1-i)"""
    __slots__ = ("n", "p")

    def __init__(self, n, p):
        self.n = L(n)
        self.p = p


class Arr(V):
    """explicit sequence of arbitrary values"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class ISeq(V):
    """a collected iterator: sequence of the items an iterator yields"""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


class MapV(V):
    """BTreeMap<usize, N>; ks: the exact key set when the shape is constant"""
    __slots__ = ("p", "ks")

    def __init__(self, p, ks=None):
        self.p = p
        self.ks = ks

    def put(self, p, k):
        """content p after storing key k"""
        return MapV(p, self.ks | {k.c} if self.ks is not None and k.isconst() else None)

    def drop(self, p, k):
        return MapV(p, self.ks - {k.c} if self.ks is not None and k.isconst() else None)

    def pres(self, k):
        if self.ks is not None and k.isconst():
            return TRUE if k.c in self.ks else FALSE
        return ("pres", self.p, k)


class IterV(V):
    """abstract iterator: adaptor tree + number of items already taken"""
    __slots__ = ("t", "pos")

    def __init__(self, t, pos=0):
        self.t = t
        self.pos = L(pos)


class FnV(V):
    __slots__ = ("f", "subst")

    def __init__(self, f, subst=None):
        self.f = f
        self.subst = subst

    def key(self):
        return ("FnV", repr(self.f))


class StrV(V):
    """string: a literal, or an opaque symbol"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Trace(V):
    """formatter: everything written so far"""
    __slots__ = ("ev",)

    def __init__(self, ev=()):
        self.ev = tuple(ev)


class Opaque(V):
    """value of an unknown generic type (e.g. a type parameter sink)"""
    __slots__ = ("tag", "p")

    def __init__(self, tag, p=None):
        self.tag = tag
        self.p = p


class Top(V):
    __slots__ = ("why",)

    def __init__(self, why="?"):
        self.why = why


UNIT = Agg("tuple", 0, ())
OPT = "core::option::Option"
RES = "core::result::Result"


def some(v):
    return Agg(OPT, 1, (v,))


NONE = Agg(OPT, 0, ())


def ok(v):
    return Agg(RES, 0, (v,))


def err(v):
    return Agg(RES, 1, (v,))


TRUE = ("t",)
FALSE = ("f",)


def fnot(f):
    if f == TRUE:
        return FALSE
    if f == FALSE:
        return TRUE
    if f[0] == "not":
        return f[1]
    if f[0] == "ge":
        return ("ge", -f[1] - 1)
    return ("not", f)


def fand(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def for_(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    return ("or", a, b)


def ge(l):
    l = L(l)
    if l.isconst():
        return TRUE if l.c >= 0 else FALSE
    return ("ge", l)


def eq(l):
    l = L(l)
    if l.isconst():
        return TRUE if l.c == 0 else FALSE
    k = l.t[0][1]
    return ("eq", l if k > 0 else -l)


def zf(p):
    """formula p == 0"""
    c = p.constval()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # canonical sign
    k = min(p.t.items(), key=lambda x: repr(x[0]))
    if k[1] < 0:
        p = -p
    return ("z", p)


def sub_value(v, m):
    """substitute integer symbols in a value"""
    if isinstance(v, IntV):
        n = v.l.subst(m)
        return v if n is v.l else IntV(n, v.ty)
    if isinstance(v, RingV):
        n = v.p.subst(m)
        return v if n is v.p else RingV(n)
    if isinstance(v, BoolV):
        return BoolV(sub_f(v.f, m))
    if isinstance(v, Agg):
        fs = tuple(sub_value(x, m) for x in v.fs)
        return v if all(a is b for a, b in zip(fs, v.fs)) else Agg(v.k, v.v, fs)
    if isinstance(v, Ref):
        return Ref(v.b, tuple(sub_proj(x, m) for x in v.path)) if v.path else v
    if isinstance(v, Seq):
        return Seq(v.n.subst(m), v.p.subst(m))
    if isinstance(v, Arr):
        return Arr(tuple(sub_value(x, m) for x in v.items))
    if isinstance(v, ISeq):
        return ISeq(sub_value(v.it, m))
    if isinstance(v, MapV):
        return MapV(v.p.subst(m), v.ks)
    if isinstance(v, IterV):
        return IterV(sub_tree(v.t, m), v.pos.subst(m))
    if isinstance(v, Trace):
        return Trace(tuple(sub_any(e, m) for e in v.ev))
    if isinstance(v, Opaque):
        return Opaque(v.tag, v.p.subst(m) if v.p is not None else None)
    if hasattr(v, "sub_ints"):
        return v.sub_ints(m)
    return v


def sub_any(x, m):
    if isinstance(x, (Lin, Poly)):
        return x.subst(m)
    if isinstance(x, V):
        return sub_value(x, m)
    if isinstance(x, tuple):
        return tuple(sub_any(y, m) for y in x)
    return x


sub_proj = sub_any
sub_tree = sub_any
sub_f = sub_any


def syms_any(x, acc):
    from .ring import _lsyms
    if isinstance(x, Lin):
        acc |= _lsyms(x)
    elif isinstance(x, Poly):
        acc |= x.syms()
    elif isinstance(x, V):
        for s in x.__slots__:
            if type(x) is FnV:
                continue
            syms_any(getattr(x, s), acc)
    elif isinstance(x, (tuple, list)):
        for y in x:
            syms_any(y, acc)
    return acc


def map_polys(x, f):
    """apply f to every Poly inside a value"""
    if isinstance(x, Poly):
        return f(x)
    if isinstance(x, RingV):
        return RingV(f(x.p))
    if isinstance(x, Seq):
        return Seq(x.n, f(x.p))
    if isinstance(x, MapV):
        return MapV(f(x.p), x.ks)
    if isinstance(x, Opaque):
        return Opaque(x.tag, f(x.p) if x.p is not None else None)
    if isinstance(x, Agg):
        return Agg(x.k, x.v, tuple(map_polys(y, f) for y in x.fs))
    if isinstance(x, Arr):
        return Arr(tuple(map_polys(y, f) for y in x.items))
    if isinstance(x, ISeq):
        return ISeq(map_polys(x.it, f))
    if isinstance(x, IterV):
        return IterV(map_polys(x.t, f), x.pos)
    if isinstance(x, BoolV):
        return BoolV(map_polys(x.f, f))
    if isinstance(x, Trace):
        return Trace(map_polys(x.ev, f))
    if isinstance(x, tuple):
        return tuple(map_polys(y, f) for y in x)
    return x


def atoms_any(x, acc):
    if isinstance(x, Poly):
        acc |= x.atoms()
    elif isinstance(x, V):
        for s in x.__slots__:
            if type(x) is FnV:
                continue
            atoms_any(getattr(x, s), acc)
    elif isinstance(x, (tuple, list)):
        for y in x:
            atoms_any(y, acc)
    return acc


INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE["u%d" % _b] = (0, 2 ** _b - 1)
    INT_RANGE["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGE["usize"] = INT_RANGE["u64"]
INT_RANGE["isize"] = INT_RANGE["i64"]
