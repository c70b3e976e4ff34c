"""Text mode: functions that read a string character by character.

The input text is not a value but a history: every character read is appended to it,
one partition per class of characters (exact intervals).  A loop that reads the text is
a fixpoint over (program state, history), histories of unbounded words being cut down to
their first character and a named rest, consistently in the history and in every
buffer that holds the same word.  The history is what the specification judges."""
import time
from .lin import Lin
from .values import *
from .values import ge, eq
from .state import Split, GiveUp
from . import ring

HIST = ("in", "hist")
WS = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F),
      (0x205F, 0x205F), (0x3000, 0x3000)]
SKIP = {32, 44, 95}
SIGN = {43, 45}


def classes(kinds):
    """exact partition of the characters into intervals, none mixing two kinds"""
    cut = {0, 0x110000}
    for lo, hi in kinds:
        cut |= {lo, hi + 1}
    c = sorted(cut)
    return [(a, b - 1) for a, b in zip(c, c[1:])]


TERM = classes([(x, x) for x in (32, 43, 44, 45, 46, 94, 95, 120)] + [(48, 57)])
POLY = classes([(43, 43), (45, 45)] + WS)


def is_ws(c):
    return any(a <= c <= b for a, b in WS)


def _bools(v, out):
    if isinstance(v, BoolV):
        if v.f not in (TRUE, FALSE):
            out.append(v.f)
    elif isinstance(v, Agg):
        for x in v.fs:
            _bools(x, out)


def _setb(v, f, c):
    if isinstance(v, BoolV):
        return BoolV(c) if v.f == f else v
    if isinstance(v, Agg):
        return Agg(v.k, v.v, tuple(_setb(x, f, c) for x in v.fs))
    return v


def settle(I, st, depth=0):
    """flags kept from one character to the next are case-split, so that they do not grow"""
    fs = []
    for c, v in st.store.items():
        if c != HIST:
            _bools(v, fs)
    if not fs or depth > 4:
        return [st]
    f = fs[0]
    out = []
    for xs, c in zip(I.branch(st, f), (TRUE, FALSE)):
        for x in xs:
            for k, v in list(x.store.items()):
                if k != HIST:
                    x.store[k] = _setb(v, f, c)
            out += settle(I, x, depth + 1)
    return out


class TextV(V):
    """the input text, or the part of it between two byte positions"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = L(lo), L(hi)

    def sub_ints(self, m):
        return TextV(self.lo.subst(m), self.hi.subst(m))


class Rest(V):
    """one or more further number characters"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def sub_ints(self, m):
        return self


class Word(V):
    """Vec<char> / String: characters and rests of words"""
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)

    def sub_ints(self, m):
        return Word(tuple(sub_value(x, m) for x in self.items))

    def len(self):
        n = Lin(0)
        for x in self.items:
            n = n + (Lin.sym(("len", x.name)) if isinstance(x, Rest) else 1)
        return n

    def key(self):
        return "".join("<%s>" % x.name if isinstance(x, Rest) else chr(x.l.c) if x.l.isconst() else "{%s}" % (x.l,) for x in self.items)


class TermHist(V):
    __slots__ = ("toks", "ended")

    def __init__(self, toks=(), ended=False):
        self.toks, self.ended = tuple(toks), ended

    def sub_ints(self, m):
        return TermHist(tuple(sub_any(t, m) for t in self.toks), self.ended)

    def read(self, cls, c, at, nxt):
        lo, hi = cls
        ts = self.toks
        if lo in SKIP:
            return self
        if lo == 120 or lo == 94:
            return TermHist(ts + (chr(lo),))
        if lo in SIGN or lo == 46 or lo == 48:
            if ts and isinstance(ts[-1], Word):
                return TermHist(ts[:-1] + (Word(ts[-1].items + (c,)),))
            return TermHist(ts + (Word((c,)),))
        return TermHist(ts + (("?", c),))

    def end(self):
        return TermHist(self.toks, True)

    def size(self):
        return len(self.toks)


class PolyHist(V):
    """start/pos: byte positions of the current piece and of the next character; seen: the
    piece has begun; due: the piece that has to be parsed next; total: sum of the terms
    parsed so far; n: bytes of the text"""
    __slots__ = ("start", "pos", "seen", "due", "total", "some", "ended", "fault")

    def __init__(self, start, pos, seen=False, due=None, total=None, some=False, ended=False, fault=None):
        self.start, self.pos, self.seen, self.due, self.total = L(start), L(pos), seen, due, total
        self.some, self.ended, self.fault = some, ended, fault

    def but(self, **kw):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(kw)
        return PolyHist(**d)

    def sub_ints(self, m):
        return self.but(start=self.start.subst(m), pos=self.pos.subst(m), due=sub_any(self.due, m), total=self.total.subst(m))

    def read(self, cls, c, at, nxt):
        h = self.but(pos=nxt)
        if self.due is not None:
            return h.but(fault=self.fault or "a piece of the text is passed over")
        if cls[0] in SIGN:
            if self.seen:
                return h.but(due=(self.start, at), start=at)
            return h.but(seen=True)
        if not is_ws(cls[0]):
            return h.but(seen=True)
        return h

    def end(self):
        if self.due is not None:
            return self.but(fault=self.fault or "a piece of the text is passed over")
        if self.ended:
            return self
        return self.but(ended=True, due=(self.start, NLEN), start=NLEN)

    def size(self):
        return 0


NLEN = Lin.sym("bytes")


class Text:
    def __init__(self, coarse=0):
        self.coarse = coarse       # bounded refinement: that many characters, words kept exactly
        self.cut = False
        self.bounds = set()
        self.heads = 0
        self.opened = 0

    # -------------------------------------------------------------- reading
    def next(self, I, st, kind):
        """-> [(state, value or None)]"""
        h = st.store[HIST]
        if isinstance(h, TermHist) and h.ended or isinstance(h, PolyHist) and h.ended:
            return [(st, None)]
        out = []
        e = st.copy()
        at = h.pos if isinstance(h, PolyHist) else Lin.sym("at")
        if isinstance(h, PolyHist):
            es = e.assume(("eq", NLEN - at))
        else:
            es = [e]
        for x in es:
            g = h.end()
            if isinstance(g, PolyHist) and g.due is not None and not h.ended and x.decide(("eq", h.start - NLEN)) is True:
                g = g.but(due=None)
            x.store[HIST] = g
            out.append((x, None))
        cs = TERM if isinstance(h, TermHist) else POLY
        if isinstance(h, TermHist) and any(isinstance(t, tuple) for t in h.toks):
            # already refused: only the end of the text is followed
            self.cut, cs = True, ()
        for cls in cs:
            x = st.copy()
            nxt = None
            if isinstance(h, PolyHist):
                nxt = Lin.sym(ring.fresh("q"))
                w = 1 if cls[1] < 128 else None
                if w:
                    x.add_lin(nxt - at - 1)
                    x.add_lin(at + 1 - nxt)
                else:
                    x.add_lin(nxt - at - 1)
                    x.add_lin(at + 4 - nxt)
                x.add_lin(NLEN - nxt)
                if not x.feasible():
                    continue
            if cls[0] == cls[1]:
                c = IntV(Lin(cls[0]), "char")
            else:
                s = Lin.sym(ring.fresh("ch"))
                x.add_lin(s - cls[0])
                x.add_lin(Lin(cls[1]) - s)
                c = IntV(s, "char")
            if self.coarse:
                self.bounds.add(nxt)
            x.store[HIST] = h.read(cls, c, at, nxt)
            out.append((x, Agg("tuple", 0, (IntV(at), c)) if kind == "indices" else c))
        return out

    # -------------------------------------------------------------- loops
    def fix(self, I, st, body, keep):
        end = I.deadline
        if end is None:
            return self._fix(I, st, body, keep)
        now = time.process_time()
        I.deadline = now + max(end - now, 0) * 0.6
        try:
            return self._fix(I, st, body, keep)
        finally:
            I.deadline = end

    def _fix(self, I, st, body, keep):
        """-> outs, or None when the loop does not read the text"""
        ids = {c[1] for c in st.store if c[0] == "f"}
        keep0 = keep

        def keep(c):
            return keep0(c) and (c[0] != "f" or c[1] in ids)
        first = [self.head(I, st.copy(), keep)]
        res, seen = [], {}
        work = [(x, 0) for x in first]
        while work:
            x, d = work.pop(0)
            if I.deadline is not None and time.process_time() > I.deadline:
                break
            k = self.key(x)
            if k in seen:
                continue
            seen[k] = x
            self.heads += 1
            if self.heads > 1500:
                raise GiveUp("the text loop does not stabilise")
            h0 = x.store.get(HIST)
            outs = body(x.copy())
            if len(seen) == 1 and all(o.st.store.get(HIST) == h0 for o in outs):
                return None
            for o in outs:
                if o.k == "back":
                    h = o.st.store[HIST]
                    if h.size() > 7 or (self.coarse and d + 1 >= self.coarse):
                        self.cut = True
                        continue
                    for y in settle(I, o.st):
                        work.append((self.head(I, y, keep), d + 1))
                else:
                    res.append(o)
        return res

    def head(self, I, st, keep):
        from .loops import gc
        if keep is not None:
            gc(st, keep)
        st.path = st.path[-12:]
        if self.coarse:
            return st
        h = st.store[HIST]
        return self.canon_term(st) if isinstance(h, TermHist) else self.canon_poly(I, st)

    def canon_term(self, st):
        h = st.store[HIST]
        j = 0
        for t in h.toks:
            if not isinstance(t, Word):
                continue
            j += 1
            it = t.items
            a = it[0]
            if not a.l.isconst():
                nm = "w%da" % j
                if a.l != Lin.sym(nm):
                    st.subst_ints({next(iter(s for s, _ in a.l.t)): Lin.sym(nm)})
            h = st.store[HIST]
            it = [x for x in h.toks if isinstance(x, Word)][j - 1].items
            if len(it) > 1 and not (len(it) == 2 and isinstance(it[1], Rest)):
                r = Rest("w%dr" % j)
                new = Word((it[0], r))
                old = Word(it)
                for c, v in list(st.store.items()):
                    st.store[c] = swap(v, old, new)
                st.add_lin(Lin.sym(("len", r.name)) - 1)
                for c, v in list(st.store.items()):
                    if isinstance(v, Word) and v != new and any(y in v.items for y in it[1:] if isinstance(y, Rest) or not y.l.isconst()):
                        st.approx = st.approx + ("a buffer holds part of a word",)
        live = set()
        syms_any(tuple(st.store.values()), live)
        st.lin = tuple(sorted({l for l in st.lin if all(y in live or isinstance(y, tuple) for y in ring._lsyms(l))}, key=repr))
        st._ec = None
        return st

    def canon_poly(self, I, st):
        h = st.store[HIST]
        # the accumulated polynomial
        for c, v in list(st.store.items()):
            if c != HIST and isinstance(v, Agg) and isinstance(v.k, str) and v.k in I.F.adt_by_path:
                from .spec import sem, Mk, ispoly
                try:
                    p = sem(I, st, v)
                except Exception:
                    continue
                if p is None or p == h.total and h.total.t and repr(p) == repr(self.gen):
                    continue
                if c[0] == "f" and self.polyty is not None and v.k == self.polyty["p"]:
                    from .decide import prove_zero, PROVED
                    if prove_zero(st, p - h.total, witness=False)[0] == PROVED:
                        x = Mk(I, st).make(self.polyty, "sum")
                        st.store[c] = x
                        self.gen = sem(I, st, x)
                        h = st.store[HIST] = st.store[HIST].but(total=self.gen)
                        st.zs = st.nz = st.zr = ()
                        st.defs = {}
                        st.bools = {}
                        break
        m = {}
        s, p = h.start, h.pos
        if not p.isconst() and p != NLEN:
            m[self.only(p)] = Lin.sym("p")
        if not s.isconst() and s != NLEN and s != p:
            m[self.only(s)] = Lin.sym("s")
        m = {a: b for a, b in m.items() if Lin.sym(a) != b}
        if m:
            for nm in ("p", "s"):
                if nm not in m and any(b == Lin.sym(nm) for b in m.values()):
                    m[nm] = Lin.sym(ring.fresh("old"))
            st.subst_ints(m)
        h = st.store[HIST]
        ok = {"p", "s", "bytes"}
        live = set()
        syms_any(tuple(v for c, v in st.store.items()), live)
        stale = {y for y in live if isinstance(y, str) and (y.startswith("q") or y.startswith("old")) and y not in ok}
        if stale and "a position from earlier in the text is kept" not in st.approx:
            st.approx = st.approx + ("a position from earlier in the text is kept",)
        lin = [l for l in st.lin if all(y in live and y not in stale for y in ring._lsyms(l)) and not ({"p", "s"} & set(ring._lsyms(l)))]
        st.lin = ()
        st._ec = None
        for l in lin + [NLEN, NLEN - h.pos, h.pos - h.start, h.start, h.pos]:
            st.add_lin(l)
        if not h.start.isconst() and h.start != NLEN and h.start != h.pos:
            st.add_lin(h.start - 1)
            st.add_lin(h.pos - h.start - 1)
        elif h.start.isconst() and not h.pos.isconst():
            st.add_lin(h.pos - 1)
        st.lin = tuple(sorted(set(st.lin), key=repr))
        return st

    polyty = None
    gen = None

    def only(self, l):
        t = [y for y, k in l.t]
        if len(t) != 1 or l.c:
            raise GiveUp("position %r" % (l,))
        return t[0]

    def key(self, st, extra=None):
        """state up to the names of heap cells"""
        num, out, todo = {}, [], []

        def show(v):
            if isinstance(v, Ref):
                if v.b[0] not in ("f", "in"):
                    if v.b not in num:
                        num[v.b] = len(num)
                        todo.append(v.b)
                    return "Ref(%d,%r)" % (num[v.b], v.path)
                return "Ref(%r,%r)" % (v.b, v.path)
            if isinstance(v, FnV):
                return repr(v.f)[:200]
            if isinstance(v, V):
                return type(v).__name__ + "(" + ",".join(show(getattr(v, s)) for s in v.__slots__) + ")"
            if isinstance(v, tuple):
                return "(" + ",".join(show(x) for x in v) + ")"
            return repr(v)
        for c in sorted((c for c in st.store if c[0] in ("f", "in")), key=repr):
            out.append(repr(c) + show(st.store[c]))
        while todo:
            c = todo.pop(0)
            out.append("%d %s" % (num[c], show(st.store.get(c))))
        return "\n".join(out), frozenset(map(repr, st.lin)), frozenset(map(repr, st.bools.items())), frozenset(map(repr, st.zs)), frozenset(map(repr, st.nz)), st.approx


def swap(v, old, new):
    if isinstance(v, Word):
        return new if v == old else v
    if isinstance(v, TermHist):
        return TermHist(tuple(swap(t, old, new) for t in v.toks), v.ended)
    if isinstance(v, Agg):
        return Agg(v.k, v.v, tuple(swap(x, old, new) for x in v.fs))
    if isinstance(v, Arr):
        return Arr(tuple(swap(x, old, new) for x in v.items))
    return v


# ------------------------------------------------------------------ library calls
TH = {}


def text(*names):
    def d(fn):
        for n in names:
            TH[n] = fn
        return fn
    return d


def RET(st, v=UNIT):
    from .interp import Out
    return [Out("ret", st, v)]


def buf(I, st, v):
    """the character buffer behind v, if it is one"""
    v = I.deref(st, v) if isinstance(v, Ref) else v
    if isinstance(v, Word):
        return v
    if isinstance(v, Seq) and v.n == Lin(0):
        return Word()
    if isinstance(v, Arr) and all(isinstance(x, IntV) and x.ty == "char" for x in v.items):
        return Word(v.items)
    if isinstance(v, StrV) and isinstance(v.s, str):
        return Word(tuple(IntV(Lin(ord(c)), "char") for c in v.s))
    return None


def cell(I, st, v):
    while isinstance(v, Ref):
        w = I.read(st, v.b, v.path)
        if not isinstance(w, Ref):
            return v
        v = w
    raise GiveUp("not a place")


def owned(I, st, a):
    w = I.deref(st, a)
    return isinstance(w, (Word,)) or (isinstance(w, Seq) and w.n == Lin(0)) or (isinstance(w, Arr) and buf(I, st, w) is not None)


@text("str::chars", "str::char_indices")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0])
    if isinstance(v, TextV):
        I.text.opened += 1
        if I.text.opened > 1 and not I.text.coarse:
            h = st.store[HIST]
            if h != I.text.start:
                raise GiveUp("the text is read twice")
        return RET(st, IterV(("txt", "indices" if f["n"] == "char_indices" else "chars")))
    w = buf(I, st, v)
    if w is not None:
        return RET(st, IterV(("word", w)))
    return None


@text("String::new", "String::with_capacity")
def _(I, fr, st, f, g, a):
    return RET(st, Word())


@text("Vec::new", "Vec::with_capacity", "Default::default")
def _(I, fr, st, f, g, a):
    t = g[0] if g else {}
    if t.get("k") == "char" or t.get("p", "").endswith("string::String") or (t.get("p", "").endswith("::Vec") and t["a"][0].get("k") == "char"):
        return RET(st, Word())
    return None


@text("Vec::push", "String::push")
def _(I, fr, st, f, g, a):
    c = I.deref(st, a[1])
    if not (isinstance(c, IntV) and c.ty == "char"):
        return None
    r = cell(I, st, a[0])
    w = buf(I, st, r)
    if w is None:
        return None
    I.write(st, r.b, r.path, Word(w.items + (c,)))
    return RET(st)


@text("String::push_str")
def _(I, fr, st, f, g, a):
    r = cell(I, st, a[0])
    w, x = buf(I, st, r), buf(I, st, a[1])
    if w is None or x is None:
        return None
    I.write(st, r.b, r.path, Word(w.items + x.items))
    return RET(st)


@text("Vec::clear", "String::clear")
def _(I, fr, st, f, g, a):
    r = cell(I, st, a[0])
    if not isinstance(I.deref(st, r), Word):
        return None
    I.write(st, r.b, r.path, Word())
    return RET(st)


@text("mem::take")
def _(I, fr, st, f, g, a):
    r = cell(I, st, a[0])
    w = I.deref(st, r)
    if not isinstance(w, Word):
        return None
    I.write(st, r.b, r.path, Word())
    return RET(st, w)


@text("Vec::len", "slice::len", "str::len", "String::len")
def _(I, fr, st, f, g, a):
    w = I.deref(st, a[0])
    if isinstance(w, TextV):
        return RET(st, IntV(w.hi - w.lo))
    if isinstance(w, Word):
        return RET(st, IntV(w.len()))
    return None


@text("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty")
def _(I, fr, st, f, g, a):
    w = I.deref(st, a[0])
    if isinstance(w, TextV):
        return RET(st, BoolV(eq(w.hi - w.lo)))
    if isinstance(w, Word):
        return RET(st, BoolV(eq(w.len())))
    return None


@text("Index::index")
def _(I, fr, st, f, g, a):
    from .interp import Out
    from .models import panic
    w = I.deref(st, a[0])
    i = I.deref(st, a[1]) if isinstance(a[1], Ref) else a[1]
    if isinstance(w, Word) and isinstance(i, IntV):
        ts, fs = I.branch(st, ge(w.len() - i.l - 1))
        out = [panic(x, "bounds") for x in fs]
        for x in ts:
            if not i.l.isconst() or i.l.c >= len(w.items) or isinstance(w.items[i.l.c], Rest) or any(isinstance(y, Rest) for y in w.items[:i.l.c]):
                raise GiveUp("character %r of a word" % (i.l,))
            out.append(Out("ret", x, I.new_ref(x, w.items[i.l.c])))
        return out
    if isinstance(w, TextV) and isinstance(i, Agg):
        k = i.k.rsplit("::", 1)[1]
        if k == "Range":
            lo, hi = i.fs[0].l, i.fs[1].l
        elif k == "RangeFrom":
            lo, hi = i.fs[0].l, w.hi - w.lo
        elif k == "RangeTo":
            lo, hi = Lin(0), i.fs[0].l
        else:
            return None
        bad, good = [], [st]
        for c in (ge(hi - lo), ge(w.hi - w.lo - hi)):
            nxt = []
            for x in good:
                ts, fs = I.branch(x, c)
                nxt += ts
                bad += fs
            good = nxt
        out = [panic(x, "slice of the text") for x in bad]
        for x in good:
            h = x.store[HIST]
            for b in (lo, hi):
                if isinstance(h, PolyHist) and b not in (h.start, h.pos, NLEN, Lin(0)) and (h.due is None or b not in h.due) and b not in I.text.bounds:
                    x.approx = x.approx + ("slice at a position not known to be a boundary",)
            out.append(Out("ret", x, TextV(w.lo + lo, w.lo + hi)))
        return out
    return None


@text("slice::first", "Vec::first", "slice::last")
def _(I, fr, st, f, g, a):
    w = I.deref(st, a[0])
    if not isinstance(w, Word):
        return None
    if not w.items:
        return RET(st, NONE)
    c = w.items[0 if f["n"] == "first" else -1]
    if isinstance(c, Rest):
        raise GiveUp("end of a word")
    return RET(st, some(I.new_ref(st, c)))


@text("slice::iter", "Vec::iter", "IntoIterator::into_iter", "Vec::drain", "Vec::into_iter")
def _(I, fr, st, f, g, a):
    w = I.deref(st, a[0])
    if isinstance(w, Word):
        if f["n"] == "drain":
            if not (isinstance(a[1], Agg) and a[1].k.endswith("RangeFull")):
                return None
            r = cell(I, st, a[0])
            I.write(st, r.b, r.path, Word())
        return RET(st, IterV(("word", w)))
    return None


@text("Iterator::copied", "Iterator::cloned")
def _(I, fr, st, f, g, a):
    return RET(st, a[0]) if isinstance(a[0], IterV) and a[0].t[0] == "word" else None


@text("Iterator::collect", "FromIterator::from_iter")
def _(I, fr, st, f, g, a):
    v = a[0]
    if isinstance(v, IterV) and v.t[0] == "word" and v.pos == Lin(0):
        return RET(st, v.t[1])
    if isinstance(v, Ref) and isinstance(I.deref(st, v), Word):
        return RET(st, I.deref(st, v))
    return None


@text("ToString::to_string", "ToOwned::to_owned", "From::from", "Into::into", "Clone::clone", "String::as_str", "Deref::deref",
      "AsRef::as_ref", "Borrow::borrow", "String::from", "String::as_mut_str", "Vec::as_slice")
def _(I, fr, st, f, g, a):
    v = I.deref(st, a[0]) if isinstance(a[0], Ref) else a[0]
    if isinstance(v, Word):
        return RET(st, a[0] if f["n"] in ("as_str", "deref", "as_ref", "borrow", "as_slice") else v)
    if isinstance(v, StrV) and isinstance(v.s, str) and f["n"] in ("to_string", "to_owned", "from", "into"):
        return RET(st, buf(I, st, v))
    return None


@text("PartialEq::eq", "PartialEq::ne")
def _(I, fr, st, f, g, a):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if not isinstance(x, Word) and not isinstance(y, Word):
        return None
    x, y = buf(I, st, x), buf(I, st, y)
    if x is None or y is None:
        return None
    if any(isinstance(c, Rest) for c in x.items):
        x, y = y, x
    if any(isinstance(c, Rest) for c in x.items):
        raise GiveUp("comparison of two words")
    if any(isinstance(c, Rest) for c in y.items):
        if len(x.items) < len(y.items):
            r = FALSE
        else:
            raise GiveUp("comparison with a long word")
    elif len(x.items) != len(y.items):
        r = FALSE
    else:
        r = TRUE
        for p, q in zip(x.items, y.items):
            r = fand(r, eq(p.l - q.l))
    return RET(st, BoolV(r if f["n"] == "eq" else fnot(r)))


@text("str::starts_with")
def _(I, fr, st, f, g, a):
    w = I.deref(st, a[0])
    c = I.deref(st, a[1])
    if not isinstance(w, Word) or not isinstance(c, IntV):
        return None
    if not w.items:
        return RET(st, BoolV(FALSE))
    return RET(st, BoolV(eq(w.items[0].l - c.l)))


@text("str::contains")
def _(I, fr, st, f, g, a):
    w = I.deref(st, a[0])
    c = I.deref(st, a[1])
    w = buf(I, st, w)
    if w is None or not isinstance(c, IntV) or any(isinstance(x, Rest) for x in w.items):
        return None
    r = FALSE
    for x in w.items:
        r = for_(r, eq(x.l - c.l))
    return RET(st, BoolV(r))


def inside(c, rs):
    r = FALSE
    for lo, hi in rs:
        r = for_(r, fand(ge(c - lo), ge(Lin(hi) - c)))
    return r


CH = {"is_whitespace": WS, "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)], "is_ascii_digit": [(48, 57)],
      "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii": [(0, 127)],
      "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)]}


@text(*["char::" + n for n in CH], *["methods::" + n for n in CH])
def _(I, fr, st, f, g, a):
    c = I.deref(st, a[0])
    if not isinstance(c, IntV):
        return None
    return RET(st, BoolV(inside(c.l, CH[f["n"]])))


@text("char::is_digit", "methods::is_digit")
def _(I, fr, st, f, g, a):
    c, r = I.deref(st, a[0]), I.deref(st, a[1])
    if isinstance(c, IntV) and isinstance(r, IntV) and r.l == Lin(10):
        return RET(st, BoolV(inside(c.l, [(48, 57)])))
    return None


def parse(I, st, w, ty):
    """N::from_str of a word: [(state, value or None)]"""
    n = ty.get("n", "N") if ty.get("k") in ("int", "float") else "N"
    n = {"u64": "usize"}.get(n, n)
    k = w.key()
    if k in ("", "+", "-"):
        return [(st, None)]
    if all(not isinstance(x, Rest) and x.l.isconst() for x in w.items):
        d = k[1:] if k[0] in "+-" else k
        if d.isdigit():
            v = int(d) * (-1 if k[0] == "-" else 1)
            if v < 0 and n == "usize":
                return [(st, None)]
            out = [(st.copy(), RingV(ring.Poly.const(v)) if n == "N" else IntV(Lin(v), n))]
            if v < 0 and n == "N":
                for x in st.assume(fnot(("atom", "parses", n, k))):
                    out.append((x, None))
            return out
    out = []
    for x in st.copy().assume(("atom", "parses", n, k)):
        out.append((x, RingV(ring.sym("parse %s" % k)) if n == "N" else number(x, "parse %s as %s" % (k, n), n)))
    for x in st.copy().assume(fnot(("atom", "parses", n, k))):
        out.append((x, None))
    return out


def number(st, nm, ty):
    s = Lin.sym(nm)
    lo, hi = INT_RANGE.get(ty, (None, None))
    if lo is None:
        raise GiveUp("parse as %s" % ty)
    st.add_lin(s - lo)
    if ty not in ("usize", "u64", "u128", "i128"):
        st.add_lin(Lin(hi) - s)
    return IntV(s, ty)


@text("FromStr::from_str", "str::parse")
def _(I, fr, st, f, g, a):
    from .interp import Out
    w = buf(I, st, a[0])
    if w is None:
        return None
    ty = g[-1] if f["n"] == "parse" else g[0]
    return [Out("ret", x, ok(v) if v is not None else err(Top("parse error"))) for x, v in parse(I, st, w, ty)]
