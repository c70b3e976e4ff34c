"""Semantics of the library items the crate calls (core/alloc/num), as abstract
transfer functions.  Anything not listed yields an unknown value and havocs what
it could write."""
import re
from .lin import Lin, L
from . import ring
from .ring import Poly, ZERO, ONE, fresh, emb, xpow
from .values import *
from .state import Split, GiveUp, plain
from .interp import Out, Interp, INT_RANGE

CF = "core::ops::control_flow::ControlFlow"


def short(p):
    p = re.sub(r"::<[^>]*(?:<[^<>]*>[^<>]*)*>", "", p)
    parts = p.split("::")
    return "::".join(parts[-2:])


_names = {}


def sname(p):
    r = _names.get(p)
    if r is None:
        r = _names[p] = _short2(p)
    return r


def _short2(p):
    # drop balanced <...> groups
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and d > 0 and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    parts = [x for x in "".join(out).split("::") if x]
    return "::".join(parts[-2:])


RET = lambda st, v=UNIT: [Out("ret", st, v)]


def panic(st, kind, **kw):
    d = {"kind": kind}
    d.update(kw)
    return Out("panic", st, d)


def isnum(t):
    return t is not None and t.get("k") in ("param", "float", "int") or (t is not None and t.get("k") == "proj")


def named_const(I, st, c):
    p = c.get("p", "")
    m = re.search(r"<impl ([iu]\w+)>::(MAX|MIN)$", p)
    if m:
        lo, hi = INT_RANGE[m.group(1)]
        return IntV(Lin(hi if m.group(2) == "MAX" else lo), m.group(1))
    m = re.search(r"<impl ([iu]\w+)>::BITS$", p)
    if m:
        lo, hi = INT_RANGE[m.group(1)]
        return IntV(Lin((hi - lo + 1).bit_length() - 1), "u32")
    return Top("const %s" % p)


LOSSLESS = set()
for a_ in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
    for b_ in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
        (al, ah), (bl, bh) = INT_RANGE[a_], INT_RANGE[b_]
        if bl <= al and ah <= bh:
            LOSSLESS.add((a_, b_))
    (al, ah) = INT_RANGE[a_]
    if ah <= 2 ** 24 and al >= -2 ** 24:
        LOSSLESS.add((a_, "f32"))
    if ah <= 2 ** 53 and al >= -2 ** 53:
        LOSSLESS.add((a_, "f64"))
LOSSLESS.add(("f32", "f64"))
LOSSLESS.add(("f32", "f32"))
LOSSLESS.add(("f64", "f64"))


def ring_cast(p, kind, t):
    """`as` cast of a coefficient; numeric identity when lossless"""
    n = t.get("n", "?")
    src = None
    for a in p.atoms():
        if a[0] in ("el", "sym") and isinstance(a[1], str) and ":" in a[1]:
            src = a[1].rsplit(":", 1)[1]
    if src is not None and (src, n) in LOSSLESS:
        return p
    c = p.constval()
    if c is not None:
        return p
    return ring.fn("as_" + n, p)


def proj_field(I, st, v, i):
    return Top("field %d of %s" % (i, type(v).__name__))


def upd_field(I, st, v, i, rest, val):
    return Top("field write")


# ---------------------------------------------------------------- iterators
def mk_iter_ref(I, st, r, mut=False):
    """iterator over &collection / slice"""
    v = I.deref(st, r)
    # resolve r to innermost reference
    while isinstance(r, Ref):
        w = I.read(st, r.b, r.path)
        if isinstance(w, Ref):
            r = w
        else:
            break
    if isinstance(v, (Seq, Arr)):
        return IterV(("slice", r, I.view_len(st, r.b, r.path)))
    if isinstance(v, ISeq):
        return IterV(("refitems", v.it.t), v.it.pos)
    if isinstance(v, MapV):
        return IterV(map_tree(I, st, r, v))
    if isinstance(v, IterV):
        return v
    return Top("iter over %s" % type(v).__name__)


def map_tree(I, st, r, v):
    p = v.p
    if v.ks is not None:
        its = []
        for k in sorted(v.ks):
            if r is None:
                its.append(Agg("tuple", 0, (IntV(k), RingV(st.coef(p, Lin(k))))))
            else:
                its.append(Agg("tuple", 0, (I.new_ref(st, IntV(k)), Ref(r.b, r.path + (("m", Lin(k)),)))))
        return ("arr", Arr(its))
    if p.t and plain(p) is None:
        p = st.name(p, None, "M")
        if r is not None:
            I.write(st, r.b, r.path, MapV(p, v.ks))
    return ("map", r, plain(p) if p.t else None, "ref")


def into_iter(I, st, v):
    if isinstance(v, IterV):
        return v
    if isinstance(v, Ref):
        w = I.deref(st, v)
        if isinstance(w, IterV):
            return v
        if isinstance(w, Agg) and w.k not in ("tuple",) and not isinstance(w.k, tuple):
            if w.k.endswith("Range") or w.k.endswith("RangeInclusive"):
                return v
            if w.k == OPT:
                return IterV(("arr", Arr([Ref(v.b, v.path + (("d", 1), ("f", 0)))] if w.v == 1 else [])))
            return Top("into_iter of &%s" % w.k)
        return mk_iter_ref(I, st, v)
    if isinstance(v, Seq):
        p = v.p if v.n.isconst() and I.shape is not None else st.name(v.p, v.n, "S")
        return IterV(("seqval", Seq(v.n, p)))
    if isinstance(v, Arr):
        return IterV(("arr", v))
    if isinstance(v, ISeq):
        return v.it
    if isinstance(v, MapV):
        t = map_tree(I, st, None, v)
        if t[0] == "arr":
            return IterV(t)
        return IterV(("map", None, t[2], "val"))
    if isinstance(v, Agg) and isinstance(v.k, str):
        if v.k.endswith("::Range"):
            return IterV(("range", v.fs[0].l, v.fs[1].l, v.fs[0].ty))
        if v.k.endswith("RangeInclusive"):
            return IterV(("range", v.fs[0].l, v.fs[1].l + 1, v.fs[0].ty))
        if v.k.endswith("RangeFrom"):
            return IterV(("range", v.fs[0].l, None, v.fs[0].ty))
        if v.k == OPT:
            return IterV(("arr", Arr(v.fs if v.v == 1 else ())))
        return v
    return Top("into_iter of %s" % type(v).__name__)


def tree_len(I, st, t):
    """number of items, or None when unbounded / not index-like"""
    k = t[0]
    if k == "slice":
        return t[2]
    if k == "seqval":
        return t[1].n
    if k == "arr":
        return Lin(len(t[1].items))
    if k == "range":
        if t[2] is None:
            return None
        d = st.decide(ge(t[2] - t[1]))
        if d is None:
            raise Split(ge(t[2] - t[1]))
        return t[2] - t[1] if d else Lin(0)
    if k == "chunks":
        return t[3]
    if k in ("enum", "mapf", "fmap", "filter", "copied", "refitems", "rev", "tproj", "twhile"):
        return tree_len(I, st, t[1])
    if k == "zip":
        a, b = tree_len(I, st, t[1]), tree_len(I, st, t[2])
        if a is None:
            return b
        if b is None:
            return a
        d = st.decide(ge(a - b))
        if d is None:
            raise Split(ge(a - b))
        return b if d else a
    if k == "take":
        a = tree_len(I, st, t[1])
        m = t[2]
        if a is None:
            return m
        d = st.decide(ge(a - m))
        if d is None:
            raise Split(ge(a - m))
        return m if d else a
    if k == "skip":
        a = tree_len(I, st, t[1])
        if a is None:
            return None
        d = st.decide(ge(a - t[2]))
        if d is None:
            raise Split(ge(a - t[2]))
        return a - t[2] if d else Lin(0)
    if k == "chain":
        a, b = tree_len(I, st, t[1]), tree_len(I, st, t[2])
        if a is None or b is None:
            return None
        return a + b
    if k == "terms":
        return t[2]
    if k == "repeat":
        return None
    return None


def is_filtered(t):
    k = t[0]
    if k in ("fmap", "filter", "map"):
        return True
    if k in ("enum", "mapf", "copied", "refitems", "rev", "take", "skip", "tproj", "twhile"):
        return is_filtered(t[1])
    if k in ("zip", "chain"):
        return is_filtered(t[1]) or is_filtered(t[2])
    return False


def mapkey(t, k):
    return k


class I_:
    """item outcome"""
    __slots__ = ("st", "k", "v")

    def __init__(self, st, k, v=None):
        self.st, self.k, self.v = st, k, v


def tree_item(I, fr, st, t, k):
    """item number k of the (unfiltered) index space: [I_(state, item|skip|end|panic, value)]"""
    h = t[0]
    if h == "slice":
        r = t[1]
        return [I_(st, "item", Ref(r.b, I.sub_index(r.path, k)))]
    if h == "seqval":
        return [I_(st, "item", RingV(st.coef(t[1].p, t[1].n - 1 - k)))]
    if h == "arr":
        return [I_(st, "item", I.seq_get(st, t[1], k))]
    if h == "range":
        return [I_(st, "item", IntV(t[1] + k, t[3] if len(t) > 3 else "usize"))]
    if h == "repeat":
        return [I_(st, "item", t[1])]
    if h == "chunks":
        r = t[1]
        return [I_(st, "item", Ref(r.b, I.sub_path(r.path, k * t[2], Lin(t[2]))))]
    if h == "terms":
        d = Lin.sym(("app", "deg " + t[1], k))
        st.add_lin(d)
        return [I_(st, "item", Agg("tuple", 0, (RingV(ring.el(t[1], k)), IntV(d))))]
    if h == "enum":
        out = []
        for o in tree_item(I, fr, st, t[1], k):
            if o.k == "item":
                o.v = Agg("tuple", 0, (IntV(k - t[2]), o.v))
            out.append(o)
        if is_filtered(t[1]):
            raise GiveUp("enumerate over a filtered iterator")
        return out
    if h == "zip":
        if is_filtered(t[1]) or is_filtered(t[2]):
            raise GiveUp("zip over a filtered iterator")
        out = []
        for a in tree_item(I, fr, st, t[1], k + t[3]):
            if a.k != "item":
                out.append(a)
                continue
            for b in tree_item(I, fr, a.st, t[2], k + t[4]):
                if b.k == "item":
                    b.v = Agg("tuple", 0, (a.v, b.v))
                out.append(b)
        return out
    if h in ("copied",):
        out = []
        for o in tree_item(I, fr, st, t[1], k):
            if o.k == "item":
                o.v = I.deref(o.st, o.v)
            out.append(o)
        return out
    if h == "refitems":
        out = []
        for o in tree_item(I, fr, st, t[1], k):
            if o.k == "item":
                o.v = I.new_ref(o.st, o.v)
            out.append(o)
        return out
    if h == "tproj":
        out = []
        for o in tree_item(I, fr, st, t[1], k):
            if o.k == "item":
                o.v = o.v.fs[t[2]] if isinstance(o.v, Agg) else Top("proj")
            out.append(o)
        return out
    if h == "rev":
        inner = t[1]
        if inner[0] == "map":
            return map_item(I, st, inner, t[2] - 1 - k, rev_left=t[2] - k)
        if is_filtered(inner):
            if inner[0] in ("fmap", "filter", "mapf"):
                return tree_item(I, fr, st, (inner[0], ("rev", inner[1], t[2]), inner[2]), k)
            raise GiveUp("rev over a filtered iterator")
        n = tree_len(I, st, inner)
        if n is None:
            raise GiveUp("rev of an unbounded iterator")
        return tree_item(I, fr, st, inner, n - 1 - k)
    if h == "take":
        if is_filtered(t[1]):
            raise GiveUp("take over a filtered iterator")
        return tree_item(I, fr, st, t[1], k)
    if h == "skip":
        if is_filtered(t[1]):
            raise GiveUp("skip over a filtered iterator")
        return tree_item(I, fr, st, t[1], k + t[2])
    if h == "chain":
        if is_filtered(t[1]) or is_filtered(t[2]):
            raise GiveUp("chain over a filtered iterator")
        a = tree_len(I, st, t[1])
        if a is None:
            raise GiveUp("chain")
        d = st.decide(ge(a - 1 - k))
        if d is None:
            raise Split(ge(a - 1 - k))
        return tree_item(I, fr, st, t[1], k) if d else tree_item(I, fr, st, t[2], k - a)
    if h == "map":
        return map_item(I, st, t, k)
    if h in ("mapf", "fmap", "filter"):
        out = []
        for o in tree_item(I, fr, st, t[1], k):
            if o.k != "item":
                out.append(o)
                continue
            arg = o.v
            if h == "filter":
                arg = I.new_ref(o.st, o.v)
            for r in call_value(I, fr, o.st, t[2], [arg]):
                if r.k != "ret":
                    out.append(I_(r.st, r.k, r.v))
                    continue
                if h == "mapf":
                    out.append(I_(r.st, "item", r.v))
                elif h == "fmap":
                    if isinstance(r.v, Agg) and r.v.k == OPT:
                        if r.v.v == 1:
                            out.append(I_(r.st, "item", r.v.fs[0]))
                        else:
                            out.append(I_(r.st, "skip"))
                    else:
                        raise GiveUp("filter_map result")
                else:
                    if not isinstance(r.v, BoolV):
                        raise GiveUp("filter result")
                    ts, fs = I.branch(r.st, r.v.f)
                    out += [I_(x, "item", o.v) for x in ts] + [I_(x, "skip") for x in fs]
        return out
    if h == "twhile":
        out = []
        for o in tree_item(I, fr, st, t[1], k):
            if o.k != "item":
                out.append(o)
                continue
            arg = I.new_ref(o.st, o.v)
            for r in call_value(I, fr, o.st, t[2], [arg]):
                if r.k != "ret" or not isinstance(r.v, BoolV):
                    raise GiveUp("take_while")
                ts, fs = I.branch(r.st, r.v.f)
                out += [I_(x, "item", o.v) for x in ts] + [I_(x, "end") for x in fs]
        return out
    raise GiveUp("iterator %s" % h)


def map_item(I, st, t, key, rev_left=None):
    """key slot `key` of a map iteration: absent -> skip, present -> item,
    or no further keys -> end"""
    P = t[2]
    out = []
    if P is None:
        return [I_(st, "end")]
    e = st.copy()
    if rev_left is None:
        e.add_zr(P, key, None)
        e.path = e.path + (("nokeys", P, key, None),)
    else:
        e.add_zr(P, None, rev_left)
        e.path = e.path + (("nokeys", P, None, rev_left),)
    out.append(I_(e, "end"))
    if rev_left is not None:
        ss = st.assume(ge(key))
        if not ss:
            return out
        st = ss[0]
    pf = ("pres", ring.full(P), key)
    for x in st.copy().assume(fnot(pf)):
        out.append(I_(x, "skip"))
    for x in st.assume(pf):
        if t[3] == "val":
            v = Agg("tuple", 0, (IntV(key), RingV(x.coef(ring.full(P), key))))
        else:
            kc = I.new_ref(x, IntV(key))
            r = t[1]
            v = Agg("tuple", 0, (kc, Ref(r.b, r.path + (("m", key),))))
        out.append(I_(x, "item", v))
    return out


def effectful(t):
    """iterators whose items come from running code (or from the text)"""
    if t[0] in ("txt", "usr"):
        return True
    return t[0] in ("mapf", "filter", "fmap", "copied", "twhile") and effectful(t[1])


def eff_next(I, fr, st, t):
    k = t[0]
    if k == "txt":
        return [I_(x, "end") if v is None else I_(x, "item", v) for x, v in I.text.next(I, st, t[1])]
    out = []
    if k == "usr":
        for r in I.call_fn(st, t[2], [t[1]], dict(fr.subst), fr.depth + 1):
            if r.k != "ret":
                out.append(I_(r.st, r.k, r.v))
            elif isinstance(r.v, Agg) and r.v.k == OPT:
                out.append(I_(r.st, "item", r.v.fs[0]) if r.v.v == 1 else I_(r.st, "end"))
            else:
                raise GiveUp("item of an iterator")
        return out
    for o in eff_next(I, fr, st, t[1]):
        if o.k != "item":
            out.append(o)
        elif k == "copied":
            out.append(I_(o.st, "item", I.deref(o.st, o.v)))
        elif k == "mapf":
            for r in call_value(I, fr, o.st, t[2], [o.v]):
                out.append(I_(r.st, "item" if r.k == "ret" else r.k, r.v))
        elif k == "filter":
            for r in call_value(I, fr, o.st, t[2], [I.new_ref(o.st, o.v)]):
                if r.k != "ret" or not isinstance(r.v, BoolV):
                    raise GiveUp("filter")
                ts, fs = I.branch(r.st, r.v.f)
                out += [I_(x, "item", o.v) for x in ts] + [I_(x, "skip") for x in fs]
        else:
            raise GiveUp("adaptor %s over running code" % k)
    return out


def iter_next(I, fr, st, cell):
    """one step of the iterator stored at cell (base,path): [I_]"""
    it = I.read(st, cell[0], cell[1])
    if isinstance(it, Agg) and isinstance(it.k, str) and it.k.endswith("::Range"):
        lo, hi = it.fs
        ts, fs = I.branch(st, ge(hi.l - lo.l - 1))
        out = []
        for x in ts:
            I.write(x, cell[0], cell[1], Agg(it.k, it.v, (IntV(lo.l + 1, lo.ty), hi)))
            out.append(I_(x, "item", lo))
        return out + [I_(x, "end") for x in fs]
    if not isinstance(it, IterV):
        raise GiveUp("next on %s" % (getattr(it, "why", type(it).__name__)))
    if effectful(it.t):
        return eff_next(I, fr, st, it.t)
    if it.t[0] == "fromfn":
        out = []
        for r in call_value(I, fr, st, it.t[1], []):
            if r.k != "ret":
                out.append(I_(r.st, r.k, r.v))
            elif isinstance(r.v, Agg) and r.v.k == OPT:
                out.append(I_(r.st, "item", r.v.fs[0]) if r.v.v == 1 else I_(r.st, "end"))
            else:
                raise GiveUp("from_fn result")
        return out

    def go(x):
        n = tree_len(I, x, it.t)
        out = []
        if n is not None:
            ts, fs = I.branch(x, ge(n - it.pos - 1))
            out += [I_(y, "end") for y in fs]
        else:
            ts = [x]
        for y in ts:
            for o in tree_item(I, fr, y, it.t, it.pos):
                if o.k in ("item", "skip"):
                    I.write(o.st, cell[0], cell[1], IterV(it.t, it.pos + 1))
                out.append(o)
        return out
    return I.with_split(st, go)


def call_value(I, fr, st, f, args):
    """call closure/fn value; f may be a Ref to a closure cell"""
    if isinstance(f, Ref):
        c = I.deref(st, f)
        if isinstance(c, Agg) and isinstance(c.k, tuple):
            return I.call_closure(fr, st, c, args, selfref=f)
        f = c
    return I.invoke(fr, st, f, args)


def iter_next_total(I, fr, st, cell):
    """next() with skipping resolved by a search loop (used outside loops)"""
    from .loops import summarise
    it = I.read(st, cell[0], cell[1])
    if not (isinstance(it, IterV) and is_filtered(it.t)):
        return iter_next(I, fr, st, cell)

    def body(x):
        outs = []
        for o in iter_next(I, fr, x, cell):
            if o.k == "skip":
                outs.append(Out("back", o.st))
            elif o.k == "panic":
                outs.append(Out("panic", o.st, o.v))
            else:
                outs.append(Out("exit", o.st, (o.k, o.v)))
        return outs
    res = []
    for o in summarise(I, st, body, ("next", fr.fid, cell)):
        if o.k == "exit":
            res.append(I_(o.st, o.v[0], o.v[1]))
        else:
            res.append(I_(o.st, o.k, o.v))
    return res


def consume(I, fr, st, it, step, tag):
    """drive iterator value `it` to the end: step(state, item) -> [Out];
    'ret' continues, 'exit' leaves early.  -> [Out exit('end'|value)|panic]"""
    from .loops import summarise
    if isinstance(it, Ref):
        cell = (it.b, it.path)
    else:
        cell = (I.alloc(st, it, "it"), ())
        outs = consume(I, fr, st, Ref(cell[0]), step, tag)
        for o in outs:
            if o.k == "exit":
                o.st.store.pop(cell[0], None)
        return outs
    itv = I.read(st, cell[0], cell[1])
    if isinstance(itv, IterV) and itv.t[0] == "arr" and itv.pos.isconst():
        # explicit items: straight line
        cur = [st]
        res = []
        for j in range(itv.pos.c, len(itv.t[1].items)):
            nxt = []
            for x in cur:
                I.write(x, cell[0], cell[1], IterV(itv.t, Lin(j + 1)))
                for r in step(x, itv.t[1].items[j]):
                    if r.k == "ret":
                        nxt.append(r.st)
                    else:
                        res.append(r)
            cur = nxt
        return res + [Out("exit", x, "end") for x in cur]

    def body(x):
        outs = []
        for o in iter_next(I, fr, x, cell):
            if o.k == "skip":
                outs.append(Out("back", o.st))
            elif o.k == "end":
                outs.append(Out("exit", o.st, "end"))
            elif o.k == "panic":
                outs.append(Out("panic", o.st, o.v))
            else:
                for r in step(o.st, o.v):
                    outs.append(Out("back", r.st) if r.k == "ret" else r)
        return outs
    return summarise(I, st, body, (tag, fr.fid, cell))


def iter_count(I, st, it):
    if isinstance(it, IterV) and not is_filtered(it.t):
        n = tree_len(I, st, it.t)
        if n is not None:
            return n - it.pos
    if isinstance(it, IterV):
        s = Lin.sym(("count", repr(it.t)))
        st.add_lin(s)
        st.approx = st.approx + ("count of a filtered iterator",)
        return s
    return None


def iseq_get(I, st, v, i):
    if isinstance(v.it, IterV) and not is_filtered(v.it.t):
        class F:
            fid = None
            subst = {}
            depth = 0
        os = tree_item(I, F, st, v.it.t, v.it.pos + i)
        if len(os) == 1 and os[0].k == "item":
            return os[0].v
    return None


def peek_kind(I, fr, st, it):
    """what kind of items does this iterator yield? 'ring' | 'other'"""
    try:
        if not isinstance(it, IterV):
            return "other"
        x = st.copy()
        k = Lin.sym(fresh("pk"))
        x.add_lin(k)
        n = tree_len(I, x, it.t)
        if n is not None:
            x.add_lin(n - 1 - k)

        def go(y):
            return tree_item(I, fr, y, it.t, k)
        for o in I.with_split(x, go):
            if o.k == "item":
                return "ring" if isinstance(o.v, RingV) else "other"
    except GiveUp:
        pass
    return "other"


def range_of(I, st, r, n):
    """(lo, hi) of a range argument over length n"""
    if isinstance(r, Agg) and isinstance(r.k, str):
        for x in r.fs:
            if isinstance(x, Top):
                raise GiveUp("range bound %r" % (x,))
        b = r.k.rsplit("::", 1)[1]
        if b == "Range":
            return r.fs[0].l, r.fs[1].l
        if b == "RangeFrom":
            return r.fs[0].l, n
        if b == "RangeTo":
            return Lin(0), r.fs[0].l
        if b == "RangeFull":
            return Lin(0), n
        if b == "RangeInclusive":
            return r.fs[0].l, r.fs[1].l + 1
        if b == "RangeToInclusive":
            return Lin(0), r.fs[0].l + 1
    return None


def slice_index(I, st, r, idx, checked=False):
    """&c[idx] for Vec/slice/array reference r"""
    v = I.deref(st, r)
    r = inner_ref(I, st, r)
    n = I.view_len(st, r.b, r.path)
    if isinstance(v, StrV) or n is None:
        return None
    if isinstance(idx, IntV):
        okk, bad = I.branch(st, fand(ge(n - idx.l - 1), ge(idx.l)))
        out = [(x, Ref(r.b, I.sub_index(r.path, idx.l))) for x in okk]
        return out, bad
    lh = range_of(I, st, idx, n)
    if lh is None:
        return None
    lo, hi = lh
    okk, bad = I.branch(st, fand(ge(hi - lo), ge(n - hi)))
    return [(x, Ref(r.b, I.sub_path(r.path, lo, hi - lo))) for x in okk], bad


def inner_ref(I, st, r):
    n = 0
    while isinstance(r, Ref):
        w = I.read(st, r.b, r.path) if not (r.path and r.path[-1][0] == "s") else None
        if isinstance(w, Ref):
            r = w
        else:
            return r
        n += 1
        if n > 20:
            break
    return r


def seqval(I, st, r):
    """value of a slice/Vec reference as a Seq"""
    if isinstance(r, Ref):
        return I.deref(st, r)
    return r


def push_all(I, fr, st, ref, it, front=False):
    """extend the Vec at ref with the items of iterator it"""
    cur = I.deref(st, ref)
    ref = inner_ref(I, st, ref)
    outs = []
    acc = I.alloc(st, Seq(Lin(0), ZERO), "acc")

    def step(x, v):
        v = I.deref(x, v)
        a = x.store[acc]
        if not isinstance(v, RingV) or not isinstance(a, Seq):
            raise GiveUp("extend item")
        x.store[acc] = Seq(a.n + 1, a.p * xpow(1) + v.p)
        return [Out("ret", x, UNIT)]
    for o in consume(I, fr, st, it, step, "extend"):
        if o.k == "exit":
            x = o.st
            a = x.store.pop(acc)

            def fin(y, a=a):
                c = I.deref(y, ref)
                if isinstance(c, Arr) and not c.items:
                    c = Seq(0, ZERO)
                if not isinstance(c, Seq):
                    raise GiveUp("extend target")
                if front:
                    n = Seq(c.n + a.n, c.p + ring.times_x(a.p, c.n))
                else:
                    n = Seq(c.n + a.n, ring.times_x(c.p, a.n) + a.p)
                I.write(y, ref.b, ref.path, n)
                return [Out("ret", y, UNIT)]
            outs += I.with_split(x, fin)
        else:
            outs.append(o)
    return outs


def collect(I, fr, st, it, bty):
    """collect iterator it into type bty"""
    p = bty.get("p", "") if bty else ""
    if p.endswith("BTreeMap"):
        acc = I.alloc(st, MapV(ZERO, I.ks0), "acc")

        def step(x, v):
            if not (isinstance(v, Agg) and len(v.fs) == 2):
                raise GiveUp("map collect")
            k, c = I.deref(x, v.fs[0]), I.deref(x, v.fs[1])

            def go(y):
                m = y.store[acc]
                old = y.coef(m.p, k.l)
                y.store[acc] = m.put(y.simp(m.p + (c.p - old) * xpow(k.l)), k.l)
                return [Out("ret", y, UNIT)]
            return I.with_split(x, go)
        outs = []
        for o in consume(I, fr, st, it, step, "collect"):
            if o.k == "exit":
                v = o.st.store.pop(acc)
                outs.append(Out("ret", o.st, v))
            else:
                outs.append(o)
        return outs
    if p.endswith("::Vec") or (bty and bty.get("k") == "adt" and "Vec" in p):
        if peek_kind(I, fr, st, it) == "ring":
            acc = I.alloc(st, Seq(0, ZERO), "acc")
            r = Ref(acc)
            outs = []
            for o in push_all(I, fr, st, r, it):
                if o.k == "ret":
                    v = o.st.store.pop(acc)
                    outs.append(Out("ret", o.st, v))
                else:
                    outs.append(o)
            return outs
        if isinstance(it, IterV):
            if it.t[0] == "fromfn" or I.shape is not None:
                return collect_explicit(I, fr, st, it)
            return RET(st, ISeq(snapshot(I, st, it)))
    if p.endswith("::Result") and isinstance(it, IterV):
        outs = []
        for o in collect_explicit(I, fr, st, it):
            if o.k != "ret":
                outs.append(o)
                continue
            vs = [I.deref(o.st, x) for x in o.v.items]
            if not all(isinstance(x, Agg) and x.k == RES for x in vs):
                outs.append(Out("ret", o.st, Top("collect of results")))
                continue
            bad = next((x for x in vs if x.v == 1), None)
            outs.append(Out("ret", o.st, bad if bad is not None else ok(Arr([x.fs[0] for x in vs]))))
        return outs
    if isinstance(it, Ref):
        w = I.deref(st, it)
        return collect(I, fr, st, w, bty)
    return RET(st, Top("collect into %s" % p))


def snapshot(I, st, v):
    """a collected sequence owns its items: later writes to the source do not show"""
    memo = {}

    def cell(b):
        if b not in memo:
            memo[b] = I.alloc(st, None, "snap")
            st.store[memo[b]] = go(st.store[b]) if b in st.store else Top("dangling")
        return memo[b]

    def go(x):
        if isinstance(x, Ref):
            return Ref(cell(x.b), go(x.path))
        if isinstance(x, Agg):
            return Agg(x.k, x.v, [go(y) for y in x.fs])
        if isinstance(x, Arr):
            return Arr([go(y) for y in x.items])
        if isinstance(x, ISeq):
            return ISeq(go(x.it))
        if isinstance(x, IterV):
            return IterV(go(x.t), x.pos)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(v)


def collect_explicit(I, fr, st, it):
    """iterators with explicit finite state: take items until the end"""
    cell = (I.alloc(st, it, "it"), ())
    outs = []
    work = [(st, ())]
    n = 0
    while work:
        x, items = work.pop()
        n += 1
        if n > (60 if I.shape is None else 400) or len(items) > (6 if I.shape is None else 10):
            raise GiveUp("collect of a stateful iterator")
        for o in iter_next(I, fr, x, cell):
            if o.k == "item":
                work.append((o.st, items + (o.v,)))
            elif o.k == "skip":
                work.append((o.st, items))
            elif o.k == "end":
                outs.append(Out("ret", o.st, Arr(items)))
            elif o.k == "panic":
                outs.append(Out("panic", o.st, o.v))
    return outs


# ---------------------------------------------------------------- ring ops
def rv(I, st, v):
    return I.deref(st, v)


def conv(x):
    """IntV standing for a coefficient"""
    return x


def ring_bin(op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        return ring.div(a, b)
    if op == "rem":
        return ring.fn("rem", a, b)


ARITH = {"Add::add": "add", "Sub::sub": "sub", "Mul::mul": "mul", "Div::div": "div", "Rem::rem": "rem"}
ARITH_ASSIGN = {"AddAssign::add_assign": "add", "SubAssign::sub_assign": "sub", "MulAssign::mul_assign": "mul",
                "DivAssign::div_assign": "div", "RemAssign::rem_assign": "rem"}
INTOP = {"add": "AddWithOverflow", "sub": "SubWithOverflow", "mul": "MulWithOverflow", "div": "Div", "rem": "Rem"}


def int_arith(I, st, op, a, b):
    """-> [(state, value)], [panic outs]"""
    r = I.binop(st, INTOP[op], a, b)
    if isinstance(r, Agg):
        f = r.fs[1].f
        bad, okk = I.branch(st, f)
        return [(x, r.fs[0]) for x in okk], [panic(x, "overflow:" + op.capitalize()) for x in bad]
    return [(st, r)], []


def ppow_ring(p, e):
    c = p.constval()
    if c == 1:
        return ONE
    return ring.ppow(p, e)


def complex_bin(I, st, op, a, b):
    if op in ("add", "sub"):
        return Agg(a.k, 0, [RingV(ring_bin(op, x.p, y.p)) for x, y in zip(a.fs, b.fs)])
    if op == "mul":
        (ar, ai), (br, bi) = [x.p for x in a.fs], [x.p for x in b.fs]
        return Agg(a.k, 0, [RingV(ar * br - ai * bi), RingV(ar * bi + ai * br)])
    return Top("complex op")


def call(I, fr, st, f, gargs, args):
    p = f["p"]
    n = sname(p)
    c = I.contracts.get("extern:" + p.rsplit("::", 1)[-1]) if I.contracts else None
    if c is not None:
        return c(I, st, args)
    if I.text is not None:
        from .text import TH
        h = TH.get(n)
        if h is not None:
            r = I.with_split(st, lambda x: [("no", x)] if (y := h(I, fr, x, f, gargs, args)) is None else y)
            if not (r and isinstance(r[0], tuple)):
                return r
            st = r[0][1]
    h = H.get(n)
    if h is None and "::" in n:
        h = H.get("*::" + n.rsplit("::", 1)[1])
    if h is not None:
        def go(x):
            return h(I, fr, x, f, gargs, args)
        r = I.with_split(st, go)
        return r
    return unknown(I, fr, st, f, args)


def unknown(I, fr, st, f, args):
    own, _, var = f["p"].rpartition("::")
    for q, vs in ((own, None), (f["p"], 0)):
        ad = I.F.adt_by_path.get(q)
        if ad is None:
            continue
        # a tuple-like constructor used as a function
        for i, w in enumerate(ad["variants"]):
            if (vs == 0 and len(ad["variants"]) == 1 or w["n"] == var) and len(w["f"]) == len(args):
                return RET(st, Agg(ad["path"], i, tuple(args)))
    for a in args:
        if isinstance(a, Ref):
            # anything reachable through a mutable borrow may change
            try:
                v = I.deref(st, a)
                st.store[a.b] = Top("havoc by %s" % f["p"]) if not isinstance(v, (IntV, RingV, BoolV, StrV)) else st.store[a.b]
            except Exception:
                pass
    st.approx = st.approx + ("unmodelled call %s" % f["p"],)
    return RET(st, Top("unmodelled %s" % f["p"]))


H = {}


def model(*names):
    def d(fn):
        for n in names:
            H[n] = fn
        return fn
    return d


@model("Zero::zero")
def _(I, fr, st, f, g, a):
    t = g[0] if g else {}
    if t.get("k") == "adt" and t["p"].endswith("Complex"):
        return RET(st, Agg("Complex", 0, (RingV(ZERO), RingV(ZERO))))
    if t.get("k") == "int" and I.concrete_numeric:
        return RET(st, IntV(0, t["n"]))
    return RET(st, RingV(ZERO))


@model("One::one")
def _(I, fr, st, f, g, a):
    t = g[0] if g else {}
    if t.get("k") == "adt" and t["p"].endswith("Complex"):
        return RET(st, Agg("Complex", 0, (RingV(ONE), RingV(ZERO))))
    if t.get("k") == "int" and I.concrete_numeric:
        return RET(st, IntV(1, t["n"]))
    return RET(st, RingV(ONE))


@model("Zero::is_zero")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if isinstance(v, RingV):
        return RET(st, BoolV(zf(st.simp(v.p))))
    if isinstance(v, IntV):
        return RET(st, BoolV(eq(v.l)))
    if isinstance(v, Agg) and v.k == "Complex":
        return RET(st, BoolV(fand(zf(v.fs[0].p), zf(v.fs[1].p))))
    return RET(st, Top("is_zero"))


@model("Zero::set_zero")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    I.write(st, r.b, r.path, RingV(ZERO))
    return RET(st)


@model("One::is_one")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if isinstance(v, RingV):
        return RET(st, BoolV(zf(st.simp(v.p - ONE))))
    if isinstance(v, IntV):
        return RET(st, BoolV(eq(v.l - 1)))
    return RET(st, Top("is_one"))


@model("IsNegativeOne::is_negative_one")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if isinstance(v, RingV):
        return RET(st, BoolV(zf(st.simp(v.p + ONE))))
    if isinstance(v, IntV):
        return RET(st, BoolV(eq(v.l + 1)))
    return RET(st, Top("is_negative_one"))


@model("IsPositive::is_positive")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if isinstance(v, RingV):
        c = v.p.constval()
        return RET(st, BoolV(("pos", st.simp(v.p)) if c is None else (TRUE if c > 0 else FALSE)))
    if isinstance(v, IntV):
        return RET(st, BoolV(ge(v.l - 1)))
    return RET(st, Top("is_positive"))


@model("Abs::abs", "f64::abs", "f32::abs", "Signed::abs")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if isinstance(v, RingV):
        return RET(st, RingV(ring.fn("abs", st.simp(v.p))))
    if isinstance(v, IntV) and f["n"] == "abs" and g and g[0].get("k") == "int":
        r = I.F.find_impl("numerics::Abs", g[0], [])
        for n, did in (r[0]["items"] if r else ()):
            if n == "abs" and did in I.F.fns and fr.fid != did:
                return I.call_fn(st, did, a, r[1], fr.depth + 1)
    return RET(st, Top("abs"))


@model("AbsSqrt::abs_sqrt")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if isinstance(v, RingV):
        return RET(st, RingV(ring.fn("abs_sqrt", st.simp(v.p))))
    return RET(st, Top("abs_sqrt"))


@model("Cbrt::cbrt", "f64::cbrt", "f32::cbrt")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    return RET(st, RingV(ring.fn("cbrt", st.simp(v.p))) if isinstance(v, RingV) else Top("cbrt"))


@model("f64::sqrt", "f32::sqrt")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    return RET(st, RingV(ring.fn("sqrt", st.simp(v.p))) if isinstance(v, RingV) else Top("sqrt"))


@model("f64::round", "f32::round")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    return RET(st, RingV(ring.fn("round", st.simp(v.p))) if isinstance(v, RingV) else Top("round"))


@model("PowUsize::upow", "pow::pow")
def _(I, fr, st, f, g, a):
    v, e = rv(I, st, a[0]), rv(I, st, a[1])
    if isinstance(v, RingV) and isinstance(e, IntV):
        return RET(st, RingV(ppow_ring(v.p, e.l)))
    return RET(st, Top("pow"))


@model("f64::powi", "f32::powi")
def _(I, fr, st, f, g, a):
    v, e = rv(I, st, a[0]), rv(I, st, a[1])
    if not (isinstance(v, RingV) and isinstance(e, IntV)):
        return RET(st, Top("powi"))
    pos, neg = I.branch(st, ge(e.l))
    return [Out("ret", x, RingV(ppow_ring(v.p, e.l))) for x in pos] + \
        [Out("ret", x, RingV(ring.div(ring.ONE, ppow_ring(v.p, -e.l)))) for x in neg]


@model("CanNegate::can_negate")
def _(I, fr, st, f, g, a):
    return RET(st, BoolV(("atom", "can_negate")))


@model("TryFromUsizeExact::try_from_usize_exact", "TryFromUsizeContinuous::try_from_usize_cont")
def _(I, fr, st, f, g, a):
    v = rv(I, st, a[0])
    if not isinstance(v, IntV):
        return RET(st, Top("conversion"))
    if I.repr_total or v.l in (Lin(0), Lin(1)):
        return RET(st, ok(RingV(emb(v.l))))
    fm = ("atom", "repr", v.l)
    out = []
    ts, fs = I.branch(st, fm)
    for x in ts:
        out.append(Out("ret", x, ok(RingV(emb(v.l)))))
    for x in fs:
        out.append(Out("ret", x, err(Agg("conversion error", 0, ()))))
    return out


@model("From::from", "Into::into")
def _(I, fr, st, f, g, a):
    v = a[0]
    t = g[0] if g else {}
    if isinstance(v, IntV) and t.get("k") in ("param", "float"):
        return RET(st, RingV(emb(v.l)))
    if isinstance(v, IntV) and t.get("k") == "int":
        return RET(st, IntV(v.l, t["n"]))
    if isinstance(v, RingV) and t.get("k") in ("param", "float", "int"):
        return RET(st, RingV(ring_cast(v.p, "from", t)) if t.get("k") != "param" else v)
    tg = g[1] if len(g) > 1 else None
    if f["n"] == "into" and tg is not None:
        r = I.resolve("core::convert::From", "from", tg, [t])
        if r:
            return I.call_fn(st, r[0], a, r[1], fr.depth + 1)
    if tg is not None and t == tg:
        return RET(st, v)
    return RET(st, Top("From::from"))


def _arith(I, fr, st, f, g, a):
    op = ARITH[sname(f["p"])]
    x, y = rv(I, st, a[0]), rv(I, st, a[1])
    if isinstance(x, RingV) and isinstance(y, RingV):
        return RET(st, RingV(st.simp(ring_bin(op, x.p, y.p))))
    if isinstance(x, IntV) and isinstance(y, IntV):
        okk, bad = int_arith(I, st, op, x, y)
        return [Out("ret", s, v) for s, v in okk] + bad
    if isinstance(x, Agg) and isinstance(y, Agg) and x.k == "Complex" and y.k == "Complex":
        return RET(st, complex_bin(I, st, op, x, y))
    return RET(st, Top("arith"))


def _arith_assign(I, fr, st, f, g, a):
    op = ARITH_ASSIGN[sname(f["p"])]
    r = inner_ref(I, st, a[0])
    x, y = rv(I, st, a[0]), rv(I, st, a[1])
    if isinstance(x, RingV) and isinstance(y, RingV):
        I.write(st, r.b, r.path, RingV(st.simp(ring_bin(op, x.p, y.p))))
        return RET(st)
    if isinstance(x, IntV) and isinstance(y, IntV):
        okk, bad = int_arith(I, st, op, x, y)
        out = bad
        for s, v in okk:
            I.write(s, r.b, r.path, v)
            out.append(Out("ret", s, UNIT))
        return out
    if isinstance(r, Ref):
        I.write(st, r.b, r.path, Top("arith assign"))
    return RET(st)


for k_ in ARITH:
    H[k_] = _arith
for k_ in ARITH_ASSIGN:
    H[k_] = _arith_assign


@model("Neg::neg")
def _(I, fr, st, f, g, a):
    x = rv(I, st, a[0])
    if isinstance(x, RingV):
        return RET(st, RingV(-x.p))
    if isinstance(x, IntV):
        return RET(st, IntV(-x.l, x.ty))
    if isinstance(x, Agg) and x.k == "Complex":
        return RET(st, Agg("Complex", 0, [RingV(-y.p) for y in x.fs]))
    return RET(st, Top("neg"))


def deep_eq(I, st, a, b):
    """-> formula or None"""
    a, b = I.deref(st, a), I.deref(st, b)
    if isinstance(a, RingV) and isinstance(b, RingV):
        return zf(st.simp(a.p - b.p))
    if isinstance(a, IntV) and isinstance(b, IntV):
        return eq(a.l - b.l)
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return for_(fand(a.f, b.f), fand(fnot(a.f), fnot(b.f)))
    if isinstance(a, StrV) and isinstance(b, StrV):
        if isinstance(a.s, str) and isinstance(b.s, str):
            return TRUE if a.s == b.s else FALSE
        return None
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.n == b.n and a.n.isconst():
            f = TRUE
            for i in range(a.n.c):
                f = fand(f, zf(st.simp(st.coef(a.p, Lin(i)) - st.coef(b.p, Lin(i)))))
            return f
        d = st.decide(eq(a.n - b.n))
        if d is None:
            raise Split(eq(a.n - b.n))
        if d is False:
            return FALSE
        return ("polyeq", a.p, b.p)
    if isinstance(a, MapV) and isinstance(b, MapV):
        # same stored keys and values: not the same thing as equal polynomials
        return ("mapeq", a.p, b.p)
    if isinstance(a, (Arr,)) and isinstance(b, Arr):
        if len(a.items) != len(b.items):
            return FALSE
        f = TRUE
        for x, y in zip(a.items, b.items):
            g = deep_eq(I, st, x, y)
            if g is None:
                return None
            f = fand(f, g)
        return f
    if isinstance(a, Agg) and isinstance(b, Agg) and a.k == b.k:
        if a.v != b.v:
            return FALSE
        f = TRUE
        for x, y in zip(a.fs, b.fs):
            g = deep_eq(I, st, x, y)
            if g is None:
                return None
            f = fand(f, g)
        return f
    return None


@model("PartialEq::eq", "PartialEq::ne", "cmp::eq", "cmp::ne")
def _(I, fr, st, f, g, a):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if isinstance(x, Agg) and isinstance(y, Agg) and isinstance(x.k, str) and x.k in I.F.adt_by_path and g:
        t = g[0]
        while t.get("k") == "ref":
            t = t["t"]
        r = I.resolve("core::cmp::PartialEq", "eq", t, [t])
        if r:
            outs = I.call_fn(st, r[0], [I.new_ref(st, x), I.new_ref(st, y)], r[1], fr.depth + 1)
            if f["n"] == "ne":
                for o in outs:
                    if o.k == "ret" and isinstance(o.v, BoolV):
                        o.v = BoolV(fnot(o.v.f))
            return outs
    r = deep_eq(I, st, x, y)
    if r is None:
        return RET(st, I.binop(st, "Eq" if f["n"] == "eq" else "Ne", x, y))
    return RET(st, BoolV(r if f["n"] == "eq" else fnot(r)))


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(I, fr, st, f, g, a):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f["n"]]
    return RET(st, I.binop(st, op, x, y))


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _(I, fr, st, f, g, a):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if not (isinstance(x, IntV) and isinstance(y, IntV)):
        return RET(st, Top("cmp"))
    out = []
    d = x.l - y.l
    for fm, v in ((ge(-d - 1), -1), (eq(d), 0), (ge(d - 1), 1)):
        for s in st.copy().assume(fm):
            # Ordering discriminants are -1, 0, 1
            r = Agg("core::cmp::Ordering", v, ())
            out.append(Out("ret", s, r if f["n"] == "cmp" else some(r)))
    return out


@model("Ord::max", "cmp::max", "Ord::min", "cmp::min")
def _(I, fr, st, f, g, a):
    x, y = a[0], a[1]
    if not (isinstance(x, IntV) and isinstance(y, IntV)):
        return RET(st, Top("max"))
    out = []
    d = x.l - y.l
    ts, fs = I.branch(st, ge(d))
    hi, lo = (x, y) if f["n"] == "max" else (y, x)
    return [Out("ret", s, hi) for s in ts] + [Out("ret", s, lo) for s in fs]


@model("Clone::clone", "ToOwned::to_owned", "Vec::clone", "BTreeMap::clone")
def _(I, fr, st, f, g, a):
    v = I.read(st, a[0].b, a[0].path) if isinstance(a[0], Ref) else a[0]
    if isinstance(v, Seq) or (isinstance(a[0], Ref) and a[0].path and a[0].path[-1][0] == "s"):
        v = I.deref(st, a[0])
    return RET(st, v)


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "Vec::as_slice",
       "Vec::as_mut_slice", "String::as_str", "array::as_slice", "array::as_mut_slice", "convert::identity",
       "hint::black_box", "BorrowMut::borrow_mut")
def _(I, fr, st, f, g, a):
    return RET(st, a[0])


@model("Index::index", "IndexMut::index_mut")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    if isinstance(v, MapV):
        r = inner_ref(I, st, a[0])
        k = I.deref(st, a[1])
        pf = v.pres(k.l)
        ts, fs = I.branch(st, pf)
        return [Out("ret", x, Ref(r.b, r.path + (("m", k.l),))) for x in ts] + [panic(x, "index") for x in fs]
    if isinstance(v, StrV):
        return RET(st, StrV(("slice", v.s, a[1])))
    r = slice_index(I, st, a[0], I.deref(st, a[1]) if isinstance(a[1], Ref) else a[1])
    if r is None:
        return RET(st, Top("index"))
    okk, bad = r
    return [Out("ret", x, v) for x, v in okk] + [panic(x, "bounds") for x in bad]


@model("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut")
def _(I, fr, st, f, g, a):
    r = slice_index(I, st, a[0], a[1])
    if r is None:
        return RET(st, Top("get"))
    okk, bad = r
    return [Out("ret", x, some(v)) for x, v in okk] + [Out("ret", x, NONE) for x in bad]


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path)
    if n is None:
        return RET(st, Top("first"))
    ts, fs = I.branch(st, ge(n - 1))
    i = Lin(0) if f["n"].startswith("first") else n - 1
    return [Out("ret", x, some(Ref(r.b, I.sub_index(r.path, i)))) for x in ts] + [Out("ret", x, NONE) for x in fs]


@model("slice::split_last", "slice::split_first", "slice::split_last_mut", "slice::split_first_mut")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path)
    if n is None:
        return RET(st, Top("split_last"))
    ts, fs = I.branch(st, ge(n - 1))
    out = [Out("ret", x, NONE) for x in fs]
    for x in ts:
        if "last" in f["n"]:
            e = Ref(r.b, I.sub_index(r.path, n - 1))
            s = Ref(r.b, I.sub_path(r.path, Lin(0), n - 1))
        else:
            e = Ref(r.b, I.sub_index(r.path, Lin(0)))
            s = Ref(r.b, I.sub_path(r.path, Lin(1), n - 1))
        out.append(Out("ret", x, some(Agg("tuple", 0, (e, s)))))
    return out


@model("slice::split_at", "slice::split_at_mut")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path)
    m = a[1].l
    if n is None:
        return RET(st, Top("split_at"))
    ts, fs = I.branch(st, ge(n - m))
    out = [panic(x, "split_at") for x in fs]
    for x in ts:
        out.append(Out("ret", x, Agg("tuple", 0, (Ref(r.b, I.sub_path(r.path, Lin(0), m)), Ref(r.b, I.sub_path(r.path, m, n - m))))))
    return out


@model("Vec::len", "slice::len", "str::len", "array::len", "String::len")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    if isinstance(v, StrV):
        return RET(st, IntV(Lin(len(v.s.encode())) if isinstance(v.s, str) else Lin.sym(("strlen", repr(v.s)))))
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path) if isinstance(r, Ref) else None
    return RET(st, IntV(n) if n is not None else Top("len"))


@model("Vec::is_empty", "slice::is_empty")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path) if isinstance(r, Ref) else None
    return RET(st, BoolV(eq(n)) if n is not None else Top("is_empty"))


@model("Vec::new", "Vec::with_capacity", "Default::default")
def _(I, fr, st, f, g, a):
    t = g[0] if g else {}
    if f["n"] == "default":
        if t.get("p", "").endswith("BTreeMap"):
            return RET(st, MapV(ZERO, I.ks0))
        if t.get("p", "") == OPT:
            return RET(st, NONE)
        if t.get("p", "").endswith("::Vec"):
            t = t["a"][0]
        else:
            return RET(st, Top("default"))
    if isnum(t):
        return RET(st, Seq(0, ZERO))
    return RET(st, Arr(()))


@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def _(I, fr, st, f, g, a):
    return RET(st)


@model("vec::from_elem")
def _(I, fr, st, f, g, a):
    v, n = a[0], a[1]
    if isinstance(v, RingV) and isinstance(n, IntV):
        if v.p.iszero():
            return RET(st, Seq(n.l, ZERO))
        if n.l.isconst() and n.l.c <= 8:
            return RET(st, I.repeat(st, v, n.l))
        v_ = fresh("i")
        d = st.decide(ge(n.l))
        return RET(st, Seq(n.l, ring.sum_range(v_, Lin(0), n.l, v.p * xpow(Lin.sym(v_)))))
    if isinstance(n, IntV) and n.l.isconst() and n.l.c <= 16:
        return RET(st, Arr([v] * n.l.c))
    return RET(st, Top("from_elem"))


@model("Vec::push")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    v = a[1]
    if isinstance(c, Arr) and not c.items and isinstance(v, RingV):
        c = Seq(0, ZERO)
    if isinstance(c, Seq) and isinstance(v, RingV):
        I.write(st, r.b, r.path, Seq(c.n + 1, c.p * xpow(1) + v.p))
        return RET(st)
    if isinstance(c, Arr):
        I.write(st, r.b, r.path, Arr(c.items + (v,)))
        return RET(st)
    if isinstance(r, Ref):
        I.write(st, r.b, r.path, Top("push"))
    return RET(st)


@model("Vec::pop")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    if not isinstance(c, Seq):
        return RET(st, Top("pop"))
    ts, fs = I.branch(st, ge(c.n - 1))
    out = [Out("ret", x, NONE) for x in fs]
    for x in ts:
        def go(y):
            e = y.coef(c.p, Lin(0))
            w = I.seq_window(y, c, Lin(0), c.n - 1)
            I.write(y, r.b, r.path, w)
            return [Out("ret", y, some(RingV(e)))]
        out += I.with_split(x, go)
    return out


@model("Vec::clear")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    I.write(st, r.b, r.path, Seq(0, ZERO) if isinstance(c, Seq) else Arr(()))
    return RET(st)


@model("Vec::truncate")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    m = a[1].l
    if not isinstance(c, Seq):
        return unknown(I, fr, st, f, a)
    ts, fs = I.branch(st, ge(c.n - m))
    out = [Out("ret", x, UNIT) for x in fs]
    for x in ts:
        def go(y):
            I.write(y, r.b, r.path, I.seq_window(y, c, Lin(0), m))
            return RET(y)
        out += I.with_split(x, go)
    return out


@model("Vec::resize")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    m = a[1].l
    if not (isinstance(c, Seq) and isinstance(a[2], RingV) and a[2].p.iszero()):
        return unknown(I, fr, st, f, a)
    ts, fs = I.branch(st, ge(m - c.n))
    out = []
    for x in ts:
        I.write(x, r.b, r.path, Seq(m, ring.times_x(c.p, m - c.n)))
        out.append(Out("ret", x, UNIT))
    for x in fs:
        def go(y):
            I.write(y, r.b, r.path, I.seq_window(y, c, Lin(0), m))
            return RET(y)
        out += I.with_split(x, go)
    return out


@model("Vec::drain")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    if not isinstance(c, Seq):
        return unknown(I, fr, st, f, a)
    lh = range_of(I, st, a[1], c.n)
    if lh is None:
        return unknown(I, fr, st, f, a)
    lo, hi = lh
    ts, fs = I.branch(st, fand(ge(hi - lo), ge(c.n - hi)))
    out = [panic(x, "drain") for x in fs]
    for x in ts:
        def go(y):
            left = I.seq_window(y, c, Lin(0), lo)
            right = I.seq_window(y, c, hi, c.n - hi)
            mid = I.seq_window(y, c, lo, hi - lo)
            I.write(y, r.b, r.path, Seq(left.n + right.n, y.simp(ring.times_x(left.p, right.n) + right.p)))
            return RET(y, IterV(("seqval", mid)))
        out += I.with_split(x, go)
    return out


@model("Vec::split_off")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    if not isinstance(c, Seq):
        return unknown(I, fr, st, f, a)
    m = a[1].l
    ts, fs = I.branch(st, ge(c.n - m))
    out = [panic(x, "split_off") for x in fs]
    for x in ts:
        def go(y):
            I.write(y, r.b, r.path, I.seq_window(y, c, Lin(0), m))
            return RET(y, I.seq_window(y, c, m, c.n - m))
        out += I.with_split(x, go)
    return out


@model("Vec::insert")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    i = a[1].l
    if not (isinstance(c, Seq) and isinstance(a[2], RingV)):
        return unknown(I, fr, st, f, a)
    ts, fs = I.branch(st, ge(c.n - i))
    out = [panic(x, "insert") for x in fs]
    for x in ts:
        def go(y):
            left = I.seq_window(y, c, Lin(0), i)
            right = I.seq_window(y, c, i, c.n - i)
            I.write(y, r.b, r.path, Seq(c.n + 1, y.simp(ring.times_x(left.p, right.n + 1) + a[2].p * xpow(right.n) + right.p)))
            return RET(y)
        out += I.with_split(x, go)
    return out


@model("Vec::remove")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    i = a[1].l
    if not isinstance(c, Seq):
        return unknown(I, fr, st, f, a)
    ts, fs = I.branch(st, ge(c.n - i - 1))
    out = [panic(x, "remove") for x in fs]
    for x in ts:
        def go(y):
            e = y.coef(c.p, c.n - 1 - i)
            left = I.seq_window(y, c, Lin(0), i)
            right = I.seq_window(y, c, i + 1, c.n - i - 1)
            I.write(y, r.b, r.path, Seq(c.n - 1, y.simp(ring.times_x(left.p, right.n) + right.p)))
            return RET(y, RingV(e))
        out += I.with_split(x, go)
    return out


@model("Vec::splice")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    c = I.deref(st, r)
    if not isinstance(c, Seq):
        return unknown(I, fr, st, f, a)
    lh = range_of(I, st, a[1], c.n)
    if lh is None:
        return unknown(I, fr, st, f, a)
    lo, hi = lh
    ts, fs = I.branch(st, fand(ge(hi - lo), ge(c.n - hi)))
    out = [panic(x, "splice") for x in fs]
    for x in ts:
        tmp = I.alloc(x, Seq(0, ZERO), "acc")
        it = into_iter(I, x, a[2])
        for o in push_all(I, fr, x, Ref(tmp), it):
            if o.k != "ret":
                out.append(o)
                continue

            def go(y):
                cc = I.deref(y, r)
                ins = y.store[tmp]
                left = I.seq_window(y, cc, Lin(0), lo)
                right = I.seq_window(y, cc, hi, cc.n - hi)
                n = left.n + ins.n + right.n
                p = ring.times_x(left.p, ins.n + right.n) + ring.times_x(ins.p, right.n) + right.p
                I.write(y, r.b, r.path, Seq(n, y.simp(p)))
                del y.store[tmp]
                return RET(y, IterV(("arr", Arr(()))))
            out += I.with_split(o.st, go)
    return out


@model("Extend::extend", "Vec::extend", "Vec::extend_from_slice", "Vec::append")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    if isinstance(v, MapV):
        r = inner_ref(I, st, a[0])

        def step(x, it):
            k, c = I.deref(x, it.fs[0]), I.deref(x, it.fs[1])

            def go(y):
                m = I.deref(y, r)
                old = y.coef(m.p, k.l)
                I.write(y, r.b, r.path, m.put(y.simp(m.p + (c.p - old) * xpow(k.l)), k.l))
                return RET(y)
            return I.with_split(x, go)
        outs = []
        for o in consume(I, fr, st, into_iter(I, st, a[1]), step, "extend"):
            outs.append(Out("ret", o.st, UNIT) if o.k == "exit" else o)
        return outs
    if f["n"] == "append":
        src = I.deref(st, a[1])
        it = into_iter(I, st, src)
        r2 = inner_ref(I, st, a[1])
        outs = push_all(I, fr, st, a[0], it)
        for o in outs:
            if o.k == "ret":
                I.write(o.st, r2.b, r2.path, Seq(0, ZERO))
        return outs
    it = into_iter(I, st, a[1])
    return push_all(I, fr, st, a[0], it)


@model("slice::to_vec", "slice::into_vec", "SliceExt::to_vec")
def _(I, fr, st, f, g, a):
    return RET(st, I.deref(st, a[0]))


@model("slice::iter", "slice::iter_mut", "Vec::iter", "BTreeMap::iter", "BTreeMap::iter_mut", "Option::iter")
def _(I, fr, st, f, g, a):
    return RET(st, mk_iter_ref(I, st, a[0]))


@model("BTreeMap::keys", "BTreeMap::into_keys")
def _(I, fr, st, f, g, a):
    it = mk_iter_ref(I, st, a[0]) if isinstance(a[0], Ref) else into_iter(I, st, a[0])
    return RET(st, IterV(("tproj", it.t, 0)) if isinstance(it, IterV) else it)


@model("BTreeMap::values", "BTreeMap::values_mut", "BTreeMap::into_values")
def _(I, fr, st, f, g, a):
    it = mk_iter_ref(I, st, a[0]) if isinstance(a[0], Ref) else into_iter(I, st, a[0])
    return RET(st, IterV(("tproj", it.t, 1)) if isinstance(it, IterV) else it)


@model("slice::chunks_exact")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path)
    m = a[1].l
    if n is None or not m.isconst() or m.c <= 0:
        return RET(st, Top("chunks_exact"))
    q = I.int_div(st, n, m)
    if q is None:
        return RET(st, Top("chunks_exact"))
    return RET(st, IterV(("chunks", r, m.c, q, n)))


@model("ChunksExact::remainder")
def _(I, fr, st, f, g, a):
    it = I.deref(st, a[0])
    if isinstance(it, IterV) and it.t[0] == "chunks":
        _, r, m, q, n = it.t
        return RET(st, Ref(r.b, I.sub_path(r.path, q * m, n - q * m)))
    return RET(st, Top("remainder"))


@model("ExactSizeIterator::len", "Iterator::count")
def _(I, fr, st, f, g, a):
    it = I.deref(st, a[0])
    n = iter_count(I, st, it)
    return RET(st, IntV(n) if n is not None else Top("len"))


@model("IntoIterator::into_iter", "Vec::into_iter", "BTreeMap::into_iter")
def _(I, fr, st, f, g, a):
    return RET(st, into_iter(I, st, a[0]))


def by_ref_val(I, st, v):
    if isinstance(v, Ref):
        w = I.deref(st, v)
        if isinstance(w, IterV):
            return w
    return v


def user_iter(I, st, v):
    """a value of a local type that implements Iterator"""
    if isinstance(v, Agg) and isinstance(v.k, str) and v.k in I.F.adt_by_path:
        for im in I.F.impls.values():
            if (im.get("trait") or "").endswith("iterator::Iterator") and im["self"].get("p") == v.k:
                for n, did in im["items"]:
                    if n == "next" and did in I.F.fns:
                        return IterV(("usr", Ref(I.alloc(st, v, "acc")), did))
    return v


def adapt(I, st, v):
    v = into_iter(I, st, v)
    if isinstance(v, Ref):
        v = I.deref(st, v)
    if not isinstance(v, IterV) and I.text is not None:
        v = user_iter(I, st, v)
    if not isinstance(v, IterV):
        raise GiveUp("adaptor over %s" % getattr(v, "why", type(v).__name__))
    return v


def clos(I, st, f):
    """closures live in a cell so their captured state persists"""
    if isinstance(f, Agg):
        return Ref(I.alloc(st, f, "acc"))
    return f


@model("Iterator::enumerate")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("enum", it.t, it.pos), it.pos))


@model("Iterator::zip")
def _(I, fr, st, f, g, a):
    x, y = adapt(I, st, a[0]), adapt(I, st, a[1])
    tx, ty = x.t, y.t
    if x.pos != Lin(0):
        tx = ("skip", tx, x.pos)
    if y.pos != Lin(0):
        ty = ("skip", ty, y.pos)
    return RET(st, IterV(("zip", tx, ty, Lin(0), Lin(0))))


@model("Iterator::map")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("mapf", it.t, clos(I, st, a[1])), it.pos))


@model("Iterator::filter_map")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("fmap", it.t, clos(I, st, a[1])), it.pos))


@model("Iterator::filter")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("filter", it.t, clos(I, st, a[1])), it.pos))


@model("Iterator::take_while")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("twhile", it.t, clos(I, st, a[1])), it.pos))


@model("Iterator::skip_while")
def _(I, fr, st, f, g, a):
    """drop the leading items satisfying the predicate"""
    from .loops import summarise
    it = adapt(I, st, a[0])
    if is_filtered(it.t):
        raise GiveUp("skip_while over a filtered iterator")
    cell = (I.alloc(st, it, "it"), ())
    pred = clos(I, st, a[1])

    def body(x):
        outs = []
        before = x.copy()
        for o in iter_next(I, fr, x, cell):
            if o.k == "end":
                outs.append(Out("exit", o.st, "end"))
            elif o.k == "item":
                for r in call_value(I, fr, o.st, pred, [I.new_ref(o.st, o.v)]):
                    if r.k != "ret" or not isinstance(r.v, BoolV):
                        raise GiveUp("skip_while predicate")
                    ts, fs = I.branch(r.st, r.v.f)
                    outs += [Out("back", y) for y in ts]
                    for y in fs:
                        w = y.store[cell[0]]
                        y.store[cell[0]] = IterV(w.t, w.pos - 1)
                        outs.append(Out("exit", y, "hit"))
            else:
                outs.append(Out(o.k, o.st, o.v))
        return outs
    res = []
    for o in summarise(I, st, body, ("skip_while", fr.fid, cell)):
        if o.k == "exit":
            w = o.st.store.pop(cell[0])
            res.append(Out("ret", o.st, IterV(("skip", w.t, w.pos))))
        else:
            res.append(o)
    return res


@model("Iterator::rev", "DoubleEndedIterator::rev")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    if it.pos != Lin(0):
        it = IterV(("skip", it.t, it.pos))
    t = it.t
    base = t
    while base[0] in ("fmap", "filter", "mapf", "tproj", "copied", "refitems"):
        base = base[1]
    D = None
    if base[0] == "map":
        D = Lin.sym(fresh("D"))
        st.add_lin(D)
        if base[2] is not None:
            st.add_zr(base[2], D, None)
            st.path = st.path + (("nokeys", base[2], D, None),)

    def push(t):
        if t[0] in ("fmap", "filter", "mapf", "tproj"):
            return (t[0], push(t[1]), t[2])
        if t[0] in ("copied", "refitems"):
            return (t[0], push(t[1]))
        return ("rev", t, D)
    return RET(st, IterV(push(t)))


@model("Iterator::take")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    t = it.t if it.pos == Lin(0) else ("skip", it.t, it.pos)
    t = ("take", t, a[1].l)
    if not is_filtered(t):
        tree_len(I, st, t)      # decides min(len, n) before a loop is entered
    return RET(st, IterV(t))


@model("Iterator::skip")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("skip", it.t, it.pos + a[1].l)))


@model("Iterator::chain")
def _(I, fr, st, f, g, a):
    x, y = adapt(I, st, a[0]), adapt(I, st, a[1])
    tx = x.t if x.pos == Lin(0) else ("skip", x.t, x.pos)
    ty = y.t if y.pos == Lin(0) else ("skip", y.t, y.pos)
    return RET(st, IterV(("chain", tx, ty)))


@model("Iterator::copied", "Iterator::cloned")
def _(I, fr, st, f, g, a):
    it = adapt(I, st, a[0])
    return RET(st, IterV(("copied", it.t), it.pos))


@model("Iterator::by_ref")
def _(I, fr, st, f, g, a):
    return RET(st, a[0])


@model("repeat::repeat", "repeat_n::repeat_n")
def _(I, fr, st, f, g, a):
    if len(a) == 2:
        return RET(st, IterV(("take", ("repeat", a[0]), a[1].l)))
    return RET(st, IterV(("repeat", a[0])))


@model("once::once")
def _(I, fr, st, f, g, a):
    return RET(st, IterV(("arr", Arr((a[0],)))))


@model("empty::empty")
def _(I, fr, st, f, g, a):
    return RET(st, IterV(("arr", Arr(()))))


@model("from_fn::from_fn")
def _(I, fr, st, f, g, a):
    return RET(st, IterV(("fromfn", clos(I, st, a[0]))))


@model("Iterator::next")
def _(I, fr, st, f, g, a):
    r = a[0]
    r = inner_ref(I, st, r) if isinstance(r, Ref) else r
    v = I.deref(st, r)
    t = g[0] if g else {}
    while t.get("k") == "ref":
        t = t["t"]
    if isinstance(v, Agg) and t.get("k") == "adt" and t["p"] in I.F.adt_by_path:
        rr = I.resolve("core::iter::traits::iterator::Iterator", "next", t, [])
        if rr:
            return I.call_fn(st, rr[0], [r], rr[1], fr.depth + 1)
    cell = (r.b, r.path)
    inloop = getattr(I, "loopctx", None) and I.loopctx[-1] == fr.id
    outs = []
    src = iter_next(I, fr, st, cell) if inloop else iter_next_total(I, fr, st, cell)
    for o in src:
        if o.k == "item":
            outs.append(Out("ret", o.st, some(o.v)))
        elif o.k == "end":
            outs.append(Out("ret", o.st, NONE))
        else:
            outs.append(Out(o.k, o.st, o.v))
    return outs


@model("Iterator::for_each")
def _(I, fr, st, f, g, a):
    cl = clos(I, st, a[1])

    def step(x, v):
        return call_value(I, fr, x, cl, [v])
    outs = []
    for o in consume(I, fr, st, into_iter(I, st, a[0]), step, "for_each"):
        outs.append(Out("ret", o.st, UNIT) if o.k == "exit" else o)
    return outs


@model("Iterator::fold")
def _(I, fr, st, f, g, a):
    cl = clos(I, st, a[2])
    acc = I.alloc(st, a[1], "acc")

    def step(x, v):
        outs = call_value(I, fr, x, cl, [x.store[acc], v])
        for o in outs:
            if o.k == "ret":
                o.st.store[acc] = o.v
        return outs
    outs = []
    for o in consume(I, fr, st, into_iter(I, st, a[0]), step, "fold"):
        if o.k == "exit":
            outs.append(Out("ret", o.st, o.st.store.pop(acc)))
        else:
            outs.append(o)
    return outs


def _early(v):
    """the value of a Try type -> (continue?, payload)"""
    if isinstance(v, Agg) and v.k == RES:
        return v.v == 0, v.fs[0] if v.v == 0 else None
    if isinstance(v, Agg) and v.k == OPT:
        return v.v == 1, v.fs[0] if v.v == 1 else None
    if isinstance(v, Agg) and v.k == CF:
        return v.v == 0, v.fs[0] if v.v == 0 else None
    if isinstance(v, Opaque) and v.tag == "fmt::Result":
        return True, UNIT
    return None, None


@model("Iterator::try_for_each", "Iterator::try_fold")
def _(I, fr, st, f, g, a):
    folding = f["n"] == "try_fold"
    cl = clos(I, st, a[-1])
    acc = I.alloc(st, a[1] if folding else UNIT, "acc")
    kind = []

    def step(x, v):
        outs = []
        for o in call_value(I, fr, x, cl, [x.store[acc], v] if folding else [v]):
            if o.k != "ret":
                outs.append(o)
                continue
            go, val = _early(o.v)
            if go is None:
                raise GiveUp("body of %s" % f["n"])
            if go:
                kind.append(o.v)
                o.st.store[acc] = val
                outs.append(o)
            else:
                outs.append(Out("exit", o.st, ("early", o.v)))
        return outs
    outs = []
    for o in consume(I, fr, st, into_iter(I, st, a[0]), step, f["n"]):
        if o.k != "exit":
            outs.append(o)
        elif o.v == "end":
            v = o.st.store.pop(acc)
            t = g[-1] if g else {}
            k = kind[0] if kind else None
            if isinstance(k, Agg):
                v = Agg(k.k, k.v, (v,))
            elif isinstance(k, Opaque):
                v = k
            else:
                v = Agg(OPT, 1, (v,)) if t.get("p", "").endswith("Option") else Agg(RES, 0, (v,))
            outs.append(Out("ret", o.st, v))
        else:
            o.st.store.pop(acc)
            outs.append(Out("ret", o.st, o.v[1]))
    return outs


@model("Iterator::nth")
def _(I, fr, st, f, g, a):
    r = a[0]
    r = inner_ref(I, st, r) if isinstance(r, Ref) else r
    v = I.deref(st, r)
    n = I.deref(st, a[1])
    if not (isinstance(v, IterV) and isinstance(n, IntV)) or is_filtered(v.t):
        raise GiveUp("nth")
    m = tree_len(I, st, v.t)
    if m is None:
        raise GiveUp("nth")
    d = st.decide(ge(m - v.pos - n.l - 1))
    if d is None:
        raise Split(ge(m - v.pos - n.l - 1))
    if d:
        I.write(st, r.b, r.path, IterV(v.t, v.pos + n.l))
    else:
        I.write(st, r.b, r.path, IterV(v.t, m))
    return H["Iterator::next"](I, fr, st, f, g, [r])


@model("slice::fill")
def _(I, fr, st, f, g, a):
    def step(x, v):
        if not isinstance(v, Ref):
            raise GiveUp("fill")
        I.write(x, v.b, v.path, a[1])
        return RET(x)
    outs = []
    for o in consume(I, fr, st, mk_iter_ref(I, st, a[0]), step, "fill"):
        outs.append(Out("ret", o.st, UNIT) if o.k == "exit" else o)
    return outs


@model("slice::swap")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    n = I.view_len(st, r.b, r.path)
    if n is None or not (isinstance(a[1], IntV) and isinstance(a[2], IntV)):
        raise GiveUp("swap")
    i, j = a[1].l, a[2].l
    ts, fs = I.branch(st, ge(n - i - 1))
    out = [panic(x, "bounds") for x in fs]
    for x in ts:
        t2, f2 = I.branch(x, ge(n - j - 1))
        out += [panic(y, "bounds") for y in f2]
        for y in t2:
            pi, pj = I.sub_index(r.path, i), I.sub_index(r.path, j)
            vi, vj = I.read(y, r.b, pi), I.read(y, r.b, pj)
            I.write(y, r.b, pi, vj)
            I.write(y, r.b, pj, vi)
            out.append(Out("ret", y, UNIT))
    return out


@model("Iterator::rfind", "DoubleEndedIterator::rfind", "Iterator::rfold", "DoubleEndedIterator::rfold")
def _(I, fr, st, f, g, a):
    it = a[0]
    if isinstance(it, Ref):
        it = I.deref(st, it)
        I.write(st, a[0].b, a[0].path, Top("iterator after a search from the back"))
    it = H["Iterator::rev"](I, fr, st, f, g, [it])[0].v
    return H["Iterator::" + f["n"][1:]](I, fr, st, f, g, [it] + list(a[1:]))


@model("Iterator::fuse")
def _(I, fr, st, f, g, a):
    return RET(st, a[0])


@model("Iterator::sum")
def _(I, fr, st, f, g, a):
    it = into_iter(I, st, a[0])
    acc = I.alloc(st, None, "acc")
    ringy = peek_kind(I, fr, st, it) == "ring"
    st.store[acc] = RingV(ZERO) if ringy else IntV(0)

    def step(x, v):
        v = I.deref(x, v)
        c = x.store[acc]
        if isinstance(v, RingV) and isinstance(c, RingV):
            x.store[acc] = RingV(c.p + v.p)
        elif isinstance(v, IntV) and isinstance(c, IntV):
            x.store[acc] = IntV(c.l + v.l)
        else:
            raise GiveUp("sum")
        return RET(x)
    outs = []
    for o in consume(I, fr, st, it, step, "sum"):
        if o.k == "exit":
            outs.append(Out("ret", o.st, o.st.store.pop(acc)))
        else:
            outs.append(o)
    return outs


def _quant(name):
    def h(I, fr, st, f, g, a):
        cl = clos(I, st, a[1])

        def step(x, v):
            outs = []
            for r in call_value(I, fr, x, cl, [v]):
                if r.k != "ret":
                    outs.append(r)
                    continue
                if not isinstance(r.v, BoolV):
                    raise GiveUp("quantifier body")
                ts, fs = I.branch(r.st, r.v.f)
                cont, stop = (ts, fs) if name == "all" else (fs, ts)
                outs += [Out("ret", y, UNIT) for y in cont]
                outs += [Out("exit", y, "stop") for y in stop]
            return outs
        outs = []
        for o in consume(I, fr, st, into_iter(I, st, a[0]), step, name):
            if o.k == "exit":
                endv = TRUE if name == "all" else FALSE
                outs.append(Out("ret", o.st, BoolV(endv if o.v == "end" else fnot(endv))))
            else:
                outs.append(o)
        return outs
    return h


H["Iterator::all"] = _quant("all")
H["Iterator::any"] = _quant("any")


def _search(kind):
    def h(I, fr, st, f, g, a):
        cl = clos(I, st, a[1])
        it = into_iter(I, st, a[0])
        if isinstance(it, Ref):
            cell = (it.b, it.path)
        else:
            cell = (I.alloc(st, it, "it"), ())
        start = I.read(st, cell[0], cell[1])
        total = None
        if kind == "rposition":
            total = iter_count(I, st, start)
            if total is None:
                raise GiveUp("rposition")
            start = H["Iterator::rev"](I, fr, st, f, g, [start])[0].v
            cell = (I.alloc(st, start, "it"), ())
        filtered = isinstance(start, IterV) and is_filtered(start.t)
        if kind in ("position", "rposition") and filtered:
            raise GiveUp("position over a filtered iterator")

        def step(x, v):
            outs = []
            arg = I.new_ref(x, v) if kind == "find" else v
            for r in call_value(I, fr, x, cl, [arg]):
                if r.k != "ret":
                    outs.append(r)
                    continue
                if kind == "find_map":
                    if not (isinstance(r.v, Agg) and r.v.k == OPT):
                        raise GiveUp("find_map")
                    outs.append(Out("exit", r.st, ("hit", r.v)) if r.v.v == 1 else Out("ret", r.st, UNIT))
                    continue
                if not isinstance(r.v, BoolV):
                    raise GiveUp("search predicate")
                ts, fs = I.branch(r.st, r.v.f)
                for y in ts:
                    if kind == "find":
                        outs.append(Out("exit", y, ("hit", some(v))))
                    else:
                        p = I.read(y, cell[0], cell[1]).pos
                        outs.append(Out("exit", y, ("pos", None)))
                outs += [Out("ret", y, UNIT) for y in fs]
            return outs
        outs = []
        for o in consume(I, fr, st, Ref(cell[0], cell[1]), step, kind):
            if o.k == "exit":
                if o.v == "end":
                    outs.append(Out("ret", o.st, NONE))
                elif o.v[0] == "hit":
                    outs.append(Out("ret", o.st, o.v[1]))
                else:
                    p = I.read(o.st, cell[0], cell[1]).pos
                    p = p - 1 - start.pos
                    outs.append(Out("ret", o.st, some(IntV(p if total is None else total - 1 - p))))
            else:
                outs.append(o)
        return outs
    return h


for k_ in ("find", "position", "find_map", "rposition"):
    H["Iterator::" + k_] = _search(k_)


@model("Iterator::collect", "FromIterator::from_iter")
def _(I, fr, st, f, g, a):
    it = into_iter(I, st, a[0])
    bty = g[1] if f["n"] == "collect" and len(g) > 1 else (g[0] if g else None)
    return collect(I, fr, st, it, bty)


@model("Iterator::last")
def _(I, fr, st, f, g, a):
    raise GiveUp("Iterator::last")


@model("Iterator::eq", "Iterator::ne")
def _(I, fr, st, f, g, a):
    x, y = adapt(I, st, a[0]), adapt(I, st, a[1])
    px, py = term_list(I, fr, st, x), term_list(I, fr, st, y)
    if px is not None and py is not None:
        fm = ("polyeq", px, py)
        return RET(st, BoolV(fm if f["n"] == "eq" else fnot(fm)))
    if not is_filtered(x.t) and not is_filtered(y.t):
        nx, ny = iter_count(I, st, x), iter_count(I, st, y)
        if nx is not None and ny is not None and peek_kind(I, fr, st, x) == "ring":
            d = st.decide(eq(nx - ny))
            if d is None:
                raise Split(eq(nx - ny))
            if d is False:
                return RET(st, BoolV(FALSE if f["n"] == "eq" else TRUE))
            t1, t2 = I.alloc(st, Seq(0, ZERO), "acc"), I.alloc(st, Seq(0, ZERO), "acc")
            outs = []
            for o in push_all(I, fr, st, Ref(t1), x):
                if o.k != "ret":
                    outs.append(o)
                    continue
                for o2 in push_all(I, fr, o.st, Ref(t2), y):
                    if o2.k != "ret":
                        outs.append(o2)
                        continue
                    fm = deep_eq(I, o2.st, o2.st.store[t1], o2.st.store[t2])
                    outs.append(Out("ret", o2.st, BoolV(fm if f["n"] == "eq" else fnot(fm))))
            return outs
    outs = []
    for o in collect_explicit(I, fr, st, x):
        if o.k != "ret":
            outs.append(o)
            continue
        for o2 in collect_explicit(I, fr, o.st, y):
            if o2.k != "ret":
                outs.append(o2)
                continue
            fm = deep_eq(I, o2.st, o.v, o2.v)
            if fm is None:
                raise GiveUp("Iterator::eq")
            outs.append(Out("ret", o2.st, BoolV(fm if f["n"] == "eq" else fnot(fm))))
    return outs


def term_list(I, fr, st, it):
    """if the iterator yields exactly the non-zero terms (c, d) of a polynomial in
    strictly descending degree order, that polynomial; else None"""
    x = st.copy()
    k = Lin.sym(fresh("tk"))
    x.add_lin(k)
    try:
        n = tree_len(I, x, it.t)
    except Split:
        return None
    if n is not None:
        x.add_lin(n - 1 - k)
    if it.pos != Lin(0):
        return None
    if not x.feasible():
        return ZERO
    items, skips = [], []
    for o in I.with_split(x, lambda y: tree_item(I, fr, y, it.t, k)):
        if o.k == "item":
            items.append(o)
        elif o.k == "skip":
            skips.append(o)
        elif o.k == "end":
            pass
        elif o.k == "panic":
            pass
        else:
            return None
    content = None
    for o in items:
        v = I.deref(o.st, o.v)
        if not (isinstance(v, Agg) and v.k == "tuple" and len(v.fs) == 2):
            return None
        c, d = I.deref(o.st, v.fs[0]), I.deref(o.st, v.fs[1])
        if not (isinstance(c, RingV) and isinstance(d, IntV)):
            return None
        if o.st.decide(zf(c.p)) is not False:
            return None         # zero terms are not filtered
        if d.l.coef(k.t[0][0]) != -1:
            return None
        # coefficient must be el(P, d + shift)
        if len(c.p.t) != 1:
            return None
        (b, fs), kk = next(iter(c.p.t.items()))
        if kk != 1 or b or len(fs) != 1 or fs[0][0][0] != "el" or fs[0][1] != Lin(1):
            return None
        e = fs[0][0]
        sh = e[2] - d.l
        dl = d.l
        if sh.coef(k.t[0][0]):
            return None
        # all non-zero elements of the operand must be covered: d ranges over [d(n-1), d(0)]
        q = ring.times_x(ring.full(e[1]), -sh)
        if n is not None:
            hi = e[2].subst({k.t[0][0]: Lin(0)})
            lo = e[2].subst({k.t[0][0]: n - 1})
            w = st.window(ring.full(e[1]), lo, hi + 1)
            q = ring.times_x(w, -sh)
        if content is None:
            content = q
        elif content != q:
            return None
    for o in skips:
        # a skipped slot must hold a zero coefficient
        if content is None or o.st.decide(zf(o.st.simp(o.st.coef(content, dl)))) is not True:
            return None
    if content is None:
        return ZERO if not items else None
    return st.simp(content)


# ---------------------------------------------------------------- maps
@model("BTreeMap::new")
def _(I, fr, st, f, g, a):
    return RET(st, MapV(ZERO, I.ks0))


@model("BTreeMap::clear")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    I.write(st, r.b, r.path, MapV(ZERO, I.ks0))
    return RET(st)


@model("BTreeMap::get", "BTreeMap::get_mut")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    r = inner_ref(I, st, a[0])
    k = I.deref(st, a[1])
    if not (isinstance(m, MapV) and isinstance(k, IntV)):
        return RET(st, Top("map get"))
    ts, fs = I.branch(st, m.pres(k.l))
    return [Out("ret", x, some(Ref(r.b, r.path + (("m", k.l),)))) for x in ts] + [Out("ret", x, NONE) for x in fs]


@model("BTreeMap::contains_key")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    k = I.deref(st, a[1])
    if not (isinstance(m, MapV) and isinstance(k, IntV)):
        return RET(st, Top("contains_key"))
    return RET(st, BoolV(m.pres(k.l)))


@model("BTreeMap::insert")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    r = inner_ref(I, st, a[0])
    k, v = a[1], a[2]
    if not (isinstance(m, MapV) and isinstance(k, IntV) and isinstance(v, RingV)):
        if isinstance(r, Ref):
            I.write(st, r.b, r.path, Top("map insert"))
        return RET(st, Top("insert"))
    old = st.coef(m.p, k.l)
    I.write(st, r.b, r.path, m.put(st.simp(m.p + (v.p - old) * xpow(k.l)), k.l))
    return RET(st, Top("previous value"))


@model("BTreeMap::remove")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    r = inner_ref(I, st, a[0])
    k = I.deref(st, a[1])
    if not (isinstance(m, MapV) and isinstance(k, IntV)):
        return unknown(I, fr, st, f, a)
    old = st.coef(m.p, k.l)
    ts, fs = I.branch(st, m.pres(k.l))
    out = [Out("ret", x, NONE) for x in fs]
    for x in ts:
        I.write(x, r.b, r.path, m.drop(x.simp(m.p - old * xpow(k.l)), k.l))
        out.append(Out("ret", x, some(RingV(old))))
    return out


@model("BTreeMap::is_empty")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    if isinstance(m, MapV) and m.ks is not None:
        return RET(st, BoolV(FALSE if m.ks else TRUE))
    if isinstance(m, MapV) and not m.p.t:
        return RET(st, BoolV(TRUE))
    if not isinstance(m, MapV):
        return RET(st, Top("is_empty"))
    P = plain(m.p)
    out = []
    e = st.copy()
    if P is not None:
        e.add_zr(P, None, None)
        e.path = e.path + (("nokeys", P, None, None),)
    else:
        e.approx = e.approx + ("emptiness of a computed map",)
    out.append(Out("ret", e, BoolV(TRUE)))
    out.append(Out("ret", st, BoolV(FALSE)))
    return out


def map_bounds(I, st, idx):
    if isinstance(idx, Agg) and isinstance(idx.k, str) and idx.k.rsplit("::", 1)[-1] in ("RangeFrom", "RangeFull"):
        return (I.deref(st, idx.fs[0]).l if idx.fs else Lin(0)), None
    lh = range_of(I, st, Agg(idx.k, idx.v, [I.deref(st, x) for x in idx.fs]) if isinstance(idx, Agg) else idx, None)
    if lh is None:
        raise GiveUp("range of a map")
    return lh


def keys_in(st, ks, lo, hi):
    out = []
    for k in sorted(ks):
        inside = True
        for f in (ge(Lin(k) - lo), ge(hi - Lin(k) - 1) if hi is not None else TRUE):
            d = st.decide(f)
            if d is None:
                raise Split(f)
            inside = inside and d
        if inside:
            out.append(k)
    return out


@model("BTreeMap::range", "BTreeMap::range_mut")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    if not isinstance(m, MapV):
        raise GiveUp("range of %r" % (m,))
    lo, hi = map_bounds(I, st, I.deref(st, a[1]))
    r = inner_ref(I, st, a[0])
    if m.ks is not None:
        its = [Agg("tuple", 0, (I.new_ref(st, IntV(k)), Ref(r.b, r.path + (("m", Lin(k)),)))) for k in keys_in(st, m.ks, lo, hi)]
        return RET(st, IterV(("arr", Arr(its))))
    if f["n"] == "range_mut":
        raise GiveUp("range_mut")
    return RET(st, mk_iter_ref(I, st, I.new_ref(st, MapV(st.window(m.p, lo, hi)))))


@model("BTreeMap::split_off")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    k = I.deref(st, a[1])
    if not (isinstance(m, MapV) and isinstance(k, IntV)):
        raise GiveUp("split_off")
    r = inner_ref(I, st, a[0])
    up, down = st.window(m.p, k.l, None), st.window(m.p, None, k.l)
    if m.ks is not None:
        ku = keys_in(st, m.ks, k.l, None)
        I.write(st, r.b, r.path, MapV(down, type(m.ks)(x for x in m.ks if x not in ku)))
        return RET(st, MapV(up, type(m.ks)(ku)))
    I.write(st, r.b, r.path, MapV(down))
    return RET(st, MapV(up))


@model("BTreeMap::len")
def _(I, fr, st, f, g, a):
    m = I.deref(st, a[0])
    if isinstance(m, MapV) and m.ks is not None:
        return RET(st, IntV(len(m.ks)))
    if isinstance(m, MapV) and not m.p.t:
        return RET(st, IntV(0))
    if not isinstance(m, MapV):
        return RET(st, Top("len"))
    s = Lin.sym(ring.fresh("keys"))
    st.add_lin(s)
    st.approx = st.approx + ("number of keys of a map",)
    return RET(st, IntV(s))


@model("BTreeMap::entry")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    return RET(st, Agg("entry", 0, (r, a[1])))


def _entry(kind):
    def h(I, fr, st, f, g, a):
        e = a[0]
        if not (isinstance(e, Agg) and e.k == "entry"):
            return RET(st, Top("entry"))
        r, k = e.fs
        m = I.deref(st, r)
        if not isinstance(m, MapV):
            return RET(st, Top("entry"))
        ts, fs = I.branch(st, m.pres(k.l))
        out = []
        elem = Ref(r.b, r.path + (("m", k.l),))
        if kind == "and_modify":
            for x in fs:
                out.append(Out("ret", x, e))
            for x in ts:
                for o in call_value(I, fr, x, clos(I, x, a[1]), [elem]):
                    if o.k == "ret":
                        o.v = e
                    out.append(o)
            return out
        out += [Out("ret", x, elem) for x in ts]
        for x in fs:
            if kind == "or_insert":
                vs = [(x, a[1])]
            elif kind == "or_default":
                vs = [(x, RingV(ZERO))]
            else:
                vs = []
                for o in call_value(I, fr, x, clos(I, x, a[1]), []):
                    if o.k == "ret":
                        vs.append((o.st, o.v))
                    else:
                        out.append(o)
            for y, v in vs:
                if not isinstance(v, RingV):
                    raise GiveUp("entry value")
                mm = I.deref(y, r)
                old = y.coef(mm.p, k.l)
                I.write(y, r.b, r.path, mm.put(y.simp(mm.p + (v.p - old) * xpow(k.l)), k.l))
                out.append(Out("ret", y, elem))
        return out
    return h


for k_ in ("or_insert", "or_insert_with", "or_default", "and_modify"):
    H["Entry::" + k_] = _entry(k_)


@model("BTreeMap::retain", "Vec::retain")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    m = I.deref(st, r)
    if not isinstance(m, MapV):
        raise GiveUp("retain")
    it = mk_iter_ref(I, st, r)
    cl = clos(I, st, a[1])

    def step(x, v):
        outs = []
        for o in call_value(I, fr, x, cl, list(v.fs)):
            if o.k != "ret":
                outs.append(o)
                continue
            if not isinstance(o.v, BoolV):
                raise GiveUp("retain predicate")
            ts, fs = I.branch(o.st, o.v.f)
            outs += [Out("ret", y, UNIT) for y in ts]
            for y in fs:
                key = I.deref(y, v.fs[0]).l

                def go(z):
                    mm = I.deref(z, r)
                    old = z.coef(mm.p, key)
                    I.write(z, r.b, r.path, mm.drop(z.simp(mm.p - old * xpow(key)), key))
                    return RET(z)
                outs += I.with_split(y, go)
        return outs
    outs = []
    for o in consume(I, fr, st, it, step, "retain"):
        outs.append(Out("ret", o.st, UNIT) if o.k == "exit" else o)
    return outs


def _edge_key(last):
    def h(I, fr, st, f, g, a):
        r = inner_ref(I, st, a[0])
        it = mk_iter_ref(I, st, r)
        if not isinstance(it, IterV):
            return RET(st, Top("edge key"))
        if last:
            o = H["Iterator::rev"](I, fr, st, f, g, [it])
            it = o[0].v
        cell = (I.alloc(st, it, "it"), ())
        outs = []
        for o in iter_next_total(I, fr, st, cell):
            if o.k == "item":
                outs.append(Out("ret", o.st, some(o.v)))
            elif o.k == "end":
                outs.append(Out("ret", o.st, NONE))
            else:
                outs.append(Out(o.k, o.st, o.v))
        return outs
    return h


H["BTreeMap::first_key_value"] = _edge_key(False)
H["BTreeMap::last_key_value"] = _edge_key(True)


# ---------------------------------------------------------------- option / result
@model("Try::branch")
def _(I, fr, st, f, g, a):
    v = a[0]
    if isinstance(v, Agg) and v.k == RES:
        if v.v == 0:
            return RET(st, Agg(CF, 0, v.fs))
        return RET(st, Agg(CF, 1, (v,)))
    if isinstance(v, Agg) and v.k == OPT:
        return RET(st, Agg(CF, 0, v.fs) if v.v == 1 else Agg(CF, 1, (v,)))
    if isinstance(v, Opaque) and v.tag == "fmt::Result":
        return RET(st, Agg(CF, 0, (UNIT,)))
    return RET(st, Top("try"))


@model("FromResidual::from_residual")
def _(I, fr, st, f, g, a):
    v = a[0]
    if isinstance(v, Agg) and v.k == RES and g:
        t = g[0]
        r = g[1] if len(g) > 1 else None
        try:
            te, re_ = t["a"][1], r["a"][1]
            if te != re_ and te.get("k") == "adt":
                rr = I.resolve("core::convert::From", "from", te, [re_])
                if rr:
                    outs = I.call_fn(st, rr[0], [v.fs[0]], rr[1], fr.depth + 1)
                    for o in outs:
                        if o.k == "ret":
                            o.v = err(o.v)
                    return outs
        except Exception:
            pass
    return RET(st, v)


def _unwrap(name):
    def h(I, fr, st, f, g, a):
        v = a[0]
        if isinstance(v, Agg) and v.k in (OPT, RES):
            good = 1 if v.k == OPT else 0
            if v.v == good:
                return RET(st, v.fs[0])
            if name == "unwrap_or":
                return RET(st, a[1])
            if name == "unwrap_or_else":
                return call_value(I, fr, st, clos(I, st, a[1]), [] if v.k == OPT else [v.fs[0]])
            if name == "unwrap_or_default":
                return RET(st, RingV(ZERO) if isnum(g[0] if g else None) else Top("default"))
            return [panic(st, "expect" if name == "expect" else "unwrap", value=v)]
        return RET(st, Top("unwrap"))
    return h


for c_ in ("Option", "Result"):
    for k_ in ("unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default"):
        H["%s::%s" % (c_, k_)] = _unwrap(k_)


@model("RangeInclusive::new")
def _(I, fr, st, f, g, a):
    return RET(st, Agg("core::ops::RangeInclusive", 0, (a[0], a[1])))


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    if not isinstance(v, Agg):
        return RET(st, Top("is_some"))
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[f["n"]]
    return RET(st, BoolV(TRUE if v.v == want else FALSE))


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Option::map_or",
       "Option::map_or_else", "Result::map_or", "Option::is_some_and", "Option::filter", "Option::or_else",
       "Option::ok_or", "Result::ok", "Option::copied", "Option::cloned", "Option::take",
       "Option::or", "Option::and", "Result::and", "Option::as_ref", "Option::as_mut", "Result::as_ref", "Option::zip",
       "Option::is_none_or", "Result::err", "Option::ok_or_else", "Option::replace", "Option::insert",
       "Result::or_else", "Result::or", "Result::is_ok_and", "Result::is_err_and", "Result::map_or_else", "Option::xor", "Result::copied", "Result::cloned")
def _(I, fr, st, f, g, a):
    nm = f["n"]
    if nm in ("as_ref", "as_mut"):
        r = inner_ref(I, st, a[0])
        v = I.deref(st, r)
        if isinstance(v, Agg):
            if not v.fs:
                return RET(st, v)
            return RET(st, Agg(v.k, v.v, (Ref(r.b, r.path + (("d", v.v), ("f", 0))),)))
        return RET(st, Top("as_ref"))
    if nm in ("take", "replace"):
        r = inner_ref(I, st, a[0])
        v = I.deref(st, r)
        I.write(st, r.b, r.path, NONE if nm == "take" else some(a[1]))
        return RET(st, v)
    v = a[0]
    if not isinstance(v, Agg):
        return RET(st, Top("option op"))
    good = 1 if v.k == OPT else 0
    isgood = v.v == good
    wrap = (lambda x: some(x)) if v.k == OPT else (lambda x: ok(x))

    def app(fn, args, w):
        outs = call_value(I, fr, st, clos(I, st, fn), args)
        for o in outs:
            if o.k == "ret":
                o.v = w(o.v)
        return outs
    ident = lambda x: x
    if nm == "map":
        return app(a[1], [v.fs[0]], wrap) if isgood else RET(st, v)
    if nm == "and_then":
        return app(a[1], [v.fs[0]], ident) if isgood else RET(st, v)
    if nm == "map_err":
        return RET(st, v) if isgood else app(a[1], [v.fs[0]], err)
    if nm == "map_or":
        return app(a[2], [v.fs[0]], ident) if isgood else RET(st, a[1])
    if nm == "map_or_else":
        return app(a[2], [v.fs[0]], ident) if isgood else app(a[1], [] if v.k == OPT else [v.fs[0]], ident)
    if nm == "is_err_and":
        return RET(st, BoolV(FALSE)) if isgood else app(a[1], [v.fs[0]], ident)
    if nm == "xor":
        return RET(st, NONE if isgood == (a[1].v == 1) else v if isgood else a[1])
    if nm in ("is_some_and", "is_ok_and"):
        return app(a[1], [v.fs[0]], ident) if isgood else RET(st, BoolV(FALSE))
    if nm == "is_none_or":
        return app(a[1], [v.fs[0]], ident) if isgood else RET(st, BoolV(TRUE))
    if nm == "or_else":
        return RET(st, v) if isgood else app(a[1], [] if v.k == OPT else [v.fs[0]], ident)
    if nm == "or":
        return RET(st, v if isgood else a[1])
    if nm == "and":
        return RET(st, a[1] if isgood else v)
    if nm == "ok_or":
        return RET(st, ok(v.fs[0]) if isgood else err(a[1]))
    if nm == "ok_or_else":
        return RET(st, ok(v.fs[0])) if isgood else app(a[1], [], err)
    if nm == "ok":
        return RET(st, some(v.fs[0]) if isgood else NONE)
    if nm == "err":
        return RET(st, NONE if isgood else some(v.fs[0]))
    if nm in ("copied", "cloned"):
        return RET(st, wrap(I.deref(st, v.fs[0])) if isgood else v)
    if nm == "filter":
        if not isgood:
            return RET(st, v)
        outs = []
        for o in call_value(I, fr, st, clos(I, st, a[1]), [I.new_ref(st, v.fs[0])]):
            if o.k == "ret" and isinstance(o.v, BoolV):
                ts, fs = I.branch(o.st, o.v.f)
                outs += [Out("ret", x, v) for x in ts] + [Out("ret", x, NONE) for x in fs]
            else:
                outs.append(o)
        return outs
    if nm == "zip":
        return RET(st, some(Agg("tuple", 0, (v.fs[0], a[1].fs[0]))) if isgood and a[1].v == 1 else NONE)
    return RET(st, Top("option op"))


@model("bool::then", "bool::then_some")
def _(I, fr, st, f, g, a):
    v = a[0]
    if not isinstance(v, BoolV):
        return RET(st, Top("then"))
    ts, fs = I.branch(st, v.f)
    out = [Out("ret", x, NONE) for x in fs]
    for x in ts:
        if f["n"] == "then_some":
            out.append(Out("ret", x, some(a[1])))
        else:
            for o in call_value(I, fr, x, clos(I, x, a[1]), []):
                if o.k == "ret":
                    o.v = some(o.v)
                out.append(o)
    return out


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(I, fr, st, f, g, a):
    args = list(a[1].fs) if isinstance(a[1], Agg) else [a[1]]
    return call_value(I, fr, st, a[0] if isinstance(a[0], Ref) else clos(I, st, a[0]), args)


# ---------------------------------------------------------------- mem / num / misc
@model("mem::take", "mem::replace", "mem::swap")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    v = I.deref(st, r)
    if f["n"] == "swap":
        r2 = inner_ref(I, st, a[1])
        w = I.deref(st, r2)
        I.write(st, r.b, r.path, w)
        I.write(st, r2.b, r2.path, v)
        return RET(st)
    if f["n"] == "replace":
        I.write(st, r.b, r.path, a[1])
        return RET(st, v)
    d = {Seq: lambda: Seq(0, ZERO), MapV: lambda: MapV(ZERO, I.ks0), Arr: lambda: Arr(())}.get(type(v))
    if d:
        I.write(st, r.b, r.path, d())
    elif isinstance(v, Agg) and v.k == OPT:
        I.write(st, r.b, r.path, NONE)
    elif isinstance(v, IntV):
        I.write(st, r.b, r.path, IntV(0, v.ty))
    else:
        I.write(st, r.b, r.path, Top("take"))
    return RET(st, v)


@model("mem::drop", "mem::forget")
def _(I, fr, st, f, g, a):
    return RET(st)


SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8,
         "usize": 8, "isize": 8, "u128": 16, "i128": 16}


@model("mem::size_of")
def _(I, fr, st, f, g, a):
    t = g[0] if g else {}
    if t.get("n") in SIZES:
        return RET(st, IntV(SIZES[t["n"]]))
    return RET(st, Top("size_of"))


@model("num::saturating_sub")
def _(I, fr, st, f, g, a):
    if not (isinstance(a[0], IntV) and isinstance(a[1], IntV)):
        return RET(st, Top("saturating_sub"))
    d = a[0].l - a[1].l
    ts, fs = I.branch(st, ge(d))
    return [Out("ret", x, IntV(d, a[0].ty)) for x in ts] + [Out("ret", x, IntV(0, a[0].ty)) for x in fs]


@model("num::checked_sub")
def _(I, fr, st, f, g, a):
    if not (isinstance(a[0], IntV) and isinstance(a[1], IntV)):
        return RET(st, Top("checked_sub"))
    d = a[0].l - a[1].l
    ts, fs = I.branch(st, ge(d))
    return [Out("ret", x, some(IntV(d, a[0].ty))) for x in ts] + [Out("ret", x, NONE) for x in fs]


@model("num::checked_add", "num::saturating_add", "num::wrapping_add")
def _(I, fr, st, f, g, a):
    if not (isinstance(a[0], IntV) and isinstance(a[1], IntV)):
        return RET(st, Top("add"))
    v = IntV(a[0].l + a[1].l, a[0].ty)
    return RET(st, some(v) if f["n"].startswith("checked") else v)


@model("num::saturating_neg", "num::checked_neg", "num::saturating_abs", "num::checked_abs", "num::wrapping_abs", "num::wrapping_neg")
def _(I, fr, st, f, g, a):
    v, nm = I.deref(st, a[0]), f["n"]
    if not isinstance(v, IntV) or v.ty not in INT_RANGE:
        return RET(st, Top(nm))
    lo, hi = INT_RANGE[v.ty]
    kind, op = nm.split("_")
    wrap = (lambda z: some(z)) if kind == "checked" else (lambda z: z)
    out, todo = [], [st]
    if op == "abs":
        pos, todo = I.branch(st, ge(v.l))
        out += [Out("ret", x, wrap(v)) for x in pos]
    elif lo == 0:
        return RET(st, Top(nm))
    for x in todo:
        bad, okk = I.branch(x, eq(v.l - lo))
        out += [Out("ret", y, wrap(IntV(-v.l, v.ty))) for y in okk]
        for y in bad:
            out.append(Out("ret", y, NONE if kind == "checked" else IntV(hi if kind == "saturating" else lo, v.ty)))
    return out


@model("num::unsigned_abs", "num::abs", "num::is_positive", "num::is_negative", "num::abs_diff")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    nm = f["n"]
    if isinstance(v, RingV):
        if nm == "abs":
            return RET(st, RingV(ring.fn("abs", v.p)))
        return RET(st, Top(nm))
    if not isinstance(v, IntV):
        return RET(st, Top(nm))
    if nm == "is_positive":
        return RET(st, BoolV(ge(v.l - 1)))
    if nm == "is_negative":
        return RET(st, BoolV(ge(-v.l - 1)))
    if nm == "abs_diff":
        ts, fs = I.branch(st, ge(v.l - a[1].l))
        return [Out("ret", x, IntV(v.l - a[1].l, v.ty)) for x in ts] + [Out("ret", x, IntV(a[1].l - v.l, v.ty)) for x in fs]
    uty = v.ty.replace("i", "u", 1) if nm == "unsigned_abs" else v.ty
    ts, fs = I.branch(st, ge(v.l))
    out = [Out("ret", x, IntV(v.l, uty)) for x in ts]
    for x in fs:
        if nm == "abs":
            lo = INT_RANGE[v.ty][0]
            bad, okk = I.branch(x, eq(v.l - lo))
            out += [Out("ret", y, IntV(-v.l, uty)) for y in okk]
            out += [panic(y, "overflow:Abs") for y in bad]
        else:
            out.append(Out("ret", x, IntV(-v.l, uty)))
    return out


@model("num::pow")
def _(I, fr, st, f, g, a):
    v, e = rv(I, st, a[0]), rv(I, st, a[1])
    if isinstance(v, RingV) and isinstance(e, IntV):
        return RET(st, RingV(ppow_ring(v.p, e.l)))
    return RET(st, Top("pow"))


@model("num::is_power_of_two", "num::leading_zeros", "num::count_zeros", "num::isqrt")
def _(I, fr, st, f, g, a):
    return RET(st, Top(f["n"]))


@model("Complex::new")
def _(I, fr, st, f, g, a):
    return RET(st, Agg("Complex", 0, (a[0], a[1])))


@model("discriminant::discriminant_value", "intrinsics::discriminant_value", "mem::discriminant")
def _(I, fr, st, f, g, a):
    return RET(st, I.discr(st, I.deref(st, a[0])))


# ---------------------------------------------------------------- vec![..] literals
@model("Box::new_uninit", "boxed::new_uninit")
def _(I, fr, st, f, g, a):
    c = I.alloc(st, Agg("box", 0, ()), "box")
    return RET(st, Agg("boxed", 0, (Ref(c),)))


@model("boxed::box_assume_init_into_vec_unsafe", "slice::box_assume_init_into_vec_unsafe")
def _(I, fr, st, f, g, a):
    v = a[0]
    r = unbox(I, st, v)
    return RET(st, r)


def unbox(I, st, v):
    n = 0
    while n < 20:
        n += 1
        if isinstance(v, Ref):
            v = I.deref(st, v)
        elif isinstance(v, Agg) and v.k in ("boxed", "box") and v.fs:
            v = v.fs[-1] if v.k == "box" else v.fs[0]
        elif isinstance(v, Agg) and len(v.fs) >= 1 and not isinstance(v.k, tuple) and ("Maybe" in v.k or "Manually" in v.k or "MaybeDangling" in v.k):
            v = v.fs[-1]
        else:
            break
    return v


# ---------------------------------------------------------------- panics
@model("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_default_msg", "panicking::unreachable_display",
       "panicking::panic_display", "panicking::panic_str_literal", "panicking::panic_explicit", "panicking::assert_failed",
       "panicking::panic_str_2015", "panicking::unreachable_fmt", "rt::begin_panic", "panicking::assert_failed_inner",
       "option::expect_failed", "option::unwrap_failed", "result::unwrap_failed")
def _(I, fr, st, f, g, a):
    return [panic(st, "panic:" + f["n"])]


# ---------------------------------------------------------------- formatting
def fmt_emit(I, st, fmtref, evs):
    r = inner_ref(I, st, fmtref)
    t = I.deref(st, r)
    if not isinstance(t, Trace):
        raise GiveUp("formatter")
    ev = list(t.ev)
    for e in evs:
        if e[0] == "lit" and ev and ev[-1][0] == "lit":
            ev[-1] = ("lit", ev[-1][1] + e[1])
        elif e[0] == "lit" and e[1] == "":
            continue
        else:
            ev.append(e)
    I.write(st, r.b, r.path, Trace(tuple(ev)))


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp")
def _(I, fr, st, f, g, a):
    return RET(st, Agg("fmtarg", 0, (StrV(f["n"]), I.deref(st, a[0]) if not isinstance(I.deref(st, a[0]), Agg) else a[0])))


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    return RET(st, Agg("fmtargs", 0, (v,)))


@model("Arguments::new", "Arguments::new_v1")
def _(I, fr, st, f, g, a):
    t = I.deref(st, a[0])
    ar = I.deref(st, a[1])
    return RET(st, Agg("fmtargs", 1, (t, ar)))


def decode_template(b):
    """format template byte code of this toolchain: literal pieces are a length
    byte (< 0x80) followed by the text, 0xC0 is a default placeholder (its low bits
    announce flags, width, precision and the index of the argument), 0 ends"""
    out = []
    i = nxt = 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", bytes(b[i + 1:i + 1 + c]).decode("utf8")))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] + 256 * b[i + 2]
            out.append(("lit", bytes(b[i + 3:i + 3 + n]).decode("utf8")))
            i += 3 + n
        elif c >= 0xC0 and not c & 0x30:
            i += 1
            o = {}
            for bit, name, n in ((1, "flags", 4), (2, "width", 2), (4, "precision", 2), (8, "index", 2)):
                if c & bit:
                    o[name] = int.from_bytes(bytes(b[i:i + n]), "little")
                    i += n
            j = o.pop("index", nxt)
            nxt = j + 1
            out.append(("arg", j, tuple(sorted(o.items()))))
        else:
            return None
    return out


@model("Formatter::write_fmt", "Write::write_fmt")
def _(I, fr, st, f, g, a):
    fa = a[1]
    evs = None
    if isinstance(fa, Agg) and fa.k == "fmtargs":
        if fa.v == 0 and isinstance(fa.fs[0], StrV) and isinstance(fa.fs[0].s, str):
            evs = [("lit", fa.fs[0].s)]
        elif fa.v == 1 and isinstance(fa.fs[0], StrV) and isinstance(fa.fs[0].s, tuple):
            tp = decode_template(fa.fs[0].s[1])
            if tp is not None and isinstance(fa.fs[1], Arr):
                evs = []
                for e in tp:
                    if e[0] == "lit":
                        evs.append(e)
                    else:
                        v = fa.fs[1].items[e[1]]
                        x = I.deref(st, v.fs[1])
                        if e[2] or v.fs[0].s != "new_display":
                            evs.append(("fmt", x, e[2], v.fs[0].s))
                        elif isinstance(x, StrV) and isinstance(x.s, str):
                            evs.append(("lit", x.s))
                        else:
                            evs.append(("show", x))
    if evs is None:
        raise GiveUp("format string")
    r = a[0]
    outs = [st]
    # arguments that are local Display types are expanded by their own impl
    states = [st]
    for e in evs:
        nxt = []
        for x in states:
            if e[0] == "show" and isinstance(e[1], Agg) and isinstance(e[1].k, str) and e[1].k in I.F.adt_by_path:
                im = None
                for did, i in I.F.impls.items():
                    if i["trait"] == "core::fmt::Display" and i["self"].get("p") == e[1].k:
                        im = i
                if im:
                    mid = [d for n_, d in im["items"] if n_ == "fmt"][0]
                    for o in I.call_fn(x, mid, [I.new_ref(x, e[1]), r], {}, fr.depth + 1):
                        if o.k == "ret":
                            nxt.append(o.st)
                        else:
                            raise GiveUp("fmt panic")
                    continue
            fmt_emit(I, x, r, [e])
            nxt.append(x)
        states = nxt
    return [Out("ret", x, ok(UNIT)) for x in states]


@model("Formatter::write_str", "Formatter::pad", "Write::write_str", "Formatter::write_char", "Write::write_char")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[1])
    if isinstance(v, StrV) and isinstance(v.s, str):
        fmt_emit(I, st, a[0], [("lit", v.s)])
        return RET(st, ok(UNIT))
    if isinstance(v, IntV) and v.l.isconst():
        fmt_emit(I, st, a[0], [("lit", chr(v.l.c))])
        return RET(st, ok(UNIT))
    raise GiveUp("write_str")


@model("Display::fmt")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    if isinstance(v, StrV) and isinstance(v.s, str):
        fmt_emit(I, st, a[1], [("lit", v.s)])
    else:
        fmt_emit(I, st, a[1], [("show", v)])
    return RET(st, ok(UNIT))


# ---------------------------------------------------------------- strings (opaque)
@model("str::chars", "str::char_indices")
def _(I, fr, st, f, g, a):
    return RET(st, Top("chars"))


@model("MutablePolynomial::try_add_term", "MutablePolynomial::try_sub_term")
def _(I, fr, st, f, g, a):
    """on an abstract receiver: Err leaves it unchanged, Ok adds the term"""
    r = inner_ref(I, st, a[0])
    s = I.deref(st, r)
    if not isinstance(s, Opaque) or s.p is None:
        return unknown(I, fr, st, f, a)
    c, d = I.deref(st, a[1]), I.deref(st, a[2])
    sg = 1 if f["n"] == "try_add_term" else -1
    e = st.copy()
    e.path = e.path + (("atom", "err", s.p, d.l, c.p, sg),)
    tag = Agg("sink error", 0, (IntV(Lin.sym("sink_error")),))
    I.write(st, r.b, r.path, Opaque(s.tag, st.simp(s.p + c.p.scale(sg) * xpow(d.l))))
    return [Out("ret", st, ok(UNIT)), Out("ret", e, err(tag))]


@model("FreeSizePolynomial::add_term")
def _(I, fr, st, f, g, a):
    r = inner_ref(I, st, a[0])
    s = I.deref(st, r)
    if not isinstance(s, Opaque) or s.p is None:
        return unknown(I, fr, st, f, a)
    c, d = I.deref(st, a[1]), I.deref(st, a[2])
    I.write(st, r.b, r.path, Opaque(s.tag, st.simp(s.p + c.p * xpow(d.l))))
    return RET(st)


@model("Evaluable::eval")
def _(I, fr, st, f, g, a):
    s = I.deref(st, a[0])
    if not isinstance(s, Opaque) or s.p is None:
        return unknown(I, fr, st, f, a)
    x = I.deref(st, a[1])
    return RET(st, RingV(ring.fn("eval", s.p, x.p)))


@model("SizedPolynomial::is_zero")
def _(I, fr, st, f, g, a):
    s = I.deref(st, a[0])
    if isinstance(s, Opaque) and s.p is not None:
        return RET(st, BoolV(("polyeq", s.p, ZERO)))
    return RET(st, Top("is_zero"))
