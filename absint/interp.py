"""Abstract interpreter over MIR: inlines local callees, partitions on branches,
summarises loops (loops.py), models library calls (models.py)."""
import sys
import time
from .lin import Lin, L
from . import ring
from .ring import Poly, ZERO, ONE, fresh, emb, xpow
from .values import *
from .state import State, Split, GiveUp, Stats, plain
from .facts import Facts, ty_subst, unify

sys.setrecursionlimit(20000)

INT_RANGE["char"] = (0, 0x10FFFF)


class Frame:
    __slots__ = ("fid", "fn", "id", "subst", "depth")
    n = 0

    def __init__(self, fid, fn, subst, depth):
        self.fid = fid
        self.fn = fn
        Frame.n += 1
        self.id = Frame.n
        self.subst = subst
        self.depth = depth


class Out:
    """outcome of executing a region"""
    __slots__ = ("k", "st", "v")

    def __init__(self, k, st, v=None):
        self.k = k      # ret | panic | back | exit | skip
        self.st = st
        self.v = v


def char_lit(s):
    """code point of a printed char literal"""
    if len(s) < 3 or s[0] != "'" or s[-1] != "'":
        return None
    s = s[1:-1]
    if len(s) == 1:
        return ord(s)
    if s.startswith("\\u{"):
        return int(s[3:-1], 16)
    return {"\\n": 10, "\\t": 9, "\\r": 13, "\\0": 0, "\\\\": 92, "\\'": 39, '\\"': 34}.get(s)


class Interp:
    MAXDEPTH = 60

    def __init__(self, facts, models=None, contracts=None, ring_types=("N",)):
        self.F = facts
        self.contracts = contracts or {}
        from . import models as M
        self.M = M
        self.heap = 0
        self.stack = []
        self.argkeys = []
        self.budget = 60000
        self.deadline = None
        self.generic = None     # polynomials taken to be in general position
        self.dropped = 0        # partitions not explored
        self.follow = 48        # partitions followed through a loop of constant shape
        self.rounds = None
        self.steps = 0
        self.maxstates = 4000
        self.straight_budget = 4000
        self.shape = None          # constant shapes of the inputs (refinement of undecided obligations)
        self.ks0 = None
        self.text = None           # reading a text character by character (text.py)
        self.rounded = {}
        self.repr_total = False    # every degree is representable in N

    # ------------------------------------------------------------ memory
    def alloc(self, st, v, tag="h"):
        self.heap += 1
        c = (tag, self.heap)
        st.store[c] = v
        return c

    def new_ref(self, st, v):
        return Ref(self.alloc(st, v))

    def read(self, st, b, path=()):
        v = st.store.get(b)
        if v is None:
            return Top("uninit %r" % (b,))
        for i, e in enumerate(path):
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == "d":
            return v
        if isinstance(v, Top):
            return Top(v.why)
        if k == "f":
            if isinstance(v, Agg):
                if e[1] < len(v.fs):
                    return v.fs[e[1]]
                return Top("field")
            if isinstance(v, Opaque):
                return Top("field of opaque")
            return self.M.proj_field(self, st, v, e[1])
        if k == "i":
            return self.seq_get(st, v, e[1])
        if k == "s":
            if isinstance(v, Seq):
                return self.seq_window(st, v, e[1], e[2])
            if isinstance(v, Arr):
                if e[1].isconst() and e[2].isconst():
                    return Arr(v.items[e[1].c:e[1].c + e[2].c])
            return Top("subslice")
        if k == "m":
            if isinstance(v, MapV):
                return RingV(st.coef(v.p, e[1]))
            return Top("map element")
        if k == "key":
            return IntV(e[1])
        return Top("proj")

    def seq_get(self, st, v, i):
        if isinstance(v, Seq):
            return RingV(st.coef(v.p, v.n - 1 - i))
        if isinstance(v, Arr):
            if i.isconst() and 0 <= i.c < len(v.items):
                return v.items[i.c]
            for j in range(len(v.items)):
                if st.decide(eq(i - j)) is True:
                    return v.items[j]
            for j in range(len(v.items)):
                if st.decide(eq(i - j)) is None:
                    raise Split(eq(i - j))
            return Top("index")
        if isinstance(v, ISeq):
            r = self.M.iseq_get(self, st, v, i)
            if r is not None:
                return r
        return Top("index of %s" % type(v).__name__)

    def seq_len(self, st, v):
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Arr):
            return Lin(len(v.items))
        if isinstance(v, ISeq):
            return self.M.iter_count(self, st, v.it)
        return None

    def seq_window(self, st, v, off, n):
        # positions [off, off+n) <-> exponents [N-off-n, N-off)
        if off == Lin(0) and n == v.n:
            return v
        lo = v.n - off - n
        hi = v.n - off
        p = v.p
        if any(len(b) > 1 for (b, fs) in p.t):
            p = st.name(p, v.n)
        if st.decide(eq(off)) is True:
            hi = None
        if st.decide(eq(lo)) is True:
            lo = None
        w = st.window(p, lo, hi)
        if lo is not None:
            w = ring.times_x(w, -lo)
        return Seq(n, st.simp(w))

    def seq_set(self, st, v, i, val):
        """replace element i"""
        if isinstance(v, Seq):
            if not isinstance(val, RingV):
                return Top("non-ring element")
            e = v.n - 1 - i
            old = st.coef(v.p, e)
            return Seq(v.n, st.simp(v.p + (val.p - old) * xpow(e)))
        if isinstance(v, Arr):
            if i.isconst() and 0 <= i.c < len(v.items):
                it = list(v.items)
                it[i.c] = val
                return Arr(it)
        return Top("indexed write")

    def write(self, st, b, path, val):
        if not path:
            st.store[b] = val
            return
        root = st.store.get(b)
        st.store[b] = self.upd(st, root, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        rest = path[1:]
        k = e[0]
        if k == "d":
            if isinstance(v, Agg) and v.v != e[1]:
                v = Agg(v.k, e[1], v.fs)
            return self.upd(st, v, rest, val)
        if isinstance(v, Top) and v.why == "uninit" and k == "f":
            v = Agg("box", 0, ())
        if isinstance(v, Top) or v is None:
            return Top("write into unknown")
        if k == "f":
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= e[1]:
                    fs.append(Top("uninit"))
                fs[e[1]] = self.upd(st, fs[e[1]], rest, val)
                return Agg(v.k, v.v, fs)
            r = self.M.upd_field(self, st, v, e[1], rest, val)
            return r
        if k == "i":
            if rest:
                inner = self.seq_get(st, v, e[1])
                val = self.upd(st, inner, rest, val)
            return self.seq_set(st, v, e[1], val)
        if k == "s":
            if rest and rest[0][0] == "i":
                return self.upd(st, v, (("i", e[1] + rest[0][1]),) + rest[1:], val)
            if not rest and isinstance(v, Seq) and isinstance(val, Seq):
                # overwrite a whole window
                lo = v.n - e[1] - e[2]
                keep = v.p - st.window(v.p, lo, v.n - e[1])
                return Seq(v.n, st.simp(keep + ring.times_x(val.p, lo)))
            return Top("write subslice")
        if k == "m":
            if isinstance(v, MapV) and isinstance(val, RingV) and not rest:
                old = st.coef(v.p, e[1])
                return v.put(st.simp(v.p + (val.p - old) * xpow(e[1])), e[1])
            return Top("map write")
        return Top("write")

    def loc(self, st, fr, place):
        """-> (base, path)"""
        b = ("f", fr.id, place["l"])
        path = ()
        for e in place["p"]:
            k = e["k"]
            if k == "deref":
                v = self.read(st, b, path)
                if isinstance(v, Ref):
                    b, path = v.b, v.path
                elif isinstance(v, Top):
                    return None
                else:
                    # values standing for their own reference (Box, literals)
                    continue
            elif k == "field":
                path = path + (("f", e["i"]),)
            elif k == "down":
                path = path + (("d", e["v"]),)
            elif k == "index":
                i = self.read(st, ("f", fr.id, e["l"]))
                if not isinstance(i, IntV):
                    return None
                path = self.sub_index(path, i.l)
            elif k == "cidx":
                if e["e"]:
                    n = self.view_len(st, b, path)
                    if n is None:
                        return None
                    i = n - e["o"]
                else:
                    i = Lin(e["o"])
                path = self.sub_index(path, i)
            elif k == "sub":
                n = self.view_len(st, b, path)
                if n is None:
                    return None
                lo = Lin(e["f"])
                ln = (n - e["t"] - e["f"]) if e["e"] else Lin(e["t"] - e["f"])
                path = self.sub_path(path, lo, ln)
            else:
                return None
        return b, path

    def sub_index(self, path, i):
        if path and path[-1][0] == "s":
            return path[:-1] + (("i", path[-1][1] + i),)
        return path + (("i", i),)

    def sub_path(self, path, lo, n):
        if path and path[-1][0] == "s":
            return path[:-1] + (("s", path[-1][1] + lo, n),)
        return path + (("s", lo, n),)

    def view_len(self, st, b, path):
        if path and path[-1][0] == "s":
            return path[-1][2]
        v = self.read(st, b, path)
        while isinstance(v, Ref):
            if v.path and v.path[-1][0] == "s":
                return v.path[-1][2]
            v = self.read(st, v.b, v.path)
        return self.seq_len(st, v)

    def place_read(self, st, fr, place):
        if not place["p"]:
            v = st.store.get(("f", fr.id, place["l"]))
            return v if v is not None else Top("uninit")
        l = self.loc(st, fr, place)
        if l is None:
            return Top("place")
        return self.read(st, l[0], l[1])

    def place_write(self, st, fr, place, val):
        if not place["p"]:
            st.store[("f", fr.id, place["l"])] = val
            return
        l = self.loc(st, fr, place)
        if l is None:
            st.approx = st.approx + ("write through unknown pointer",)
            return
        self.write(st, l[0], l[1], val)

    def deref(self, st, v):
        """follow references to a value"""
        n = 0
        while isinstance(v, Ref):
            v = self.read(st, v.b, v.path)
            n += 1
            if n > 20:
                break
        return v

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o["o"] in ("copy", "move"):
            return self.place_read(st, fr, o["p"])
        return self.const(st, fr, o["v"])

    def const(self, st, fr, c):
        k = c["c"]
        if k == "int":
            t = c.get("t", {})
            if t.get("k") == "bool":
                return BoolV(TRUE if int(c["v"]) else FALSE)
            if t.get("k") == "float":
                return RingV(self.float_const(c["v"], t["n"]))
            n = int(c["v"])
            return IntV(Lin(n), t.get("n", "char" if t.get("k") == "char" else "usize"))
        if k == "fn":
            return FnV(c["f"], dict(fr.subst))
        if k == "str":
            v = c["v"]
            return StrV(bytes(v).decode("utf8", "replace") if isinstance(v, list) else v)
        if k == "bytes":
            v = c["v"]
            return StrV(("bytes", tuple(v) if isinstance(v, list) else v))
        if k == "zst":
            t = c.get("t", {})
            if t.get("k") == "tuple":
                return UNIT
            if t.get("k") == "closure":
                return Agg(("closure", t["d"]), 0, ())
            if t.get("k") == "fndef":
                return FnV(t, dict(fr.subst))
            return Agg(t.get("p", "zst"), 0, ())
        if k == "promoted":
            return self.promoted(st, fr, c)
        if k == "named":
            v = c.get("v")
            if v is not None:
                r = self.const(st, fr, v) if isinstance(v, dict) else None
                if r is not None:
                    return r
            return self.M.named_const(self, st, c)
        if k == "ty" and (c.get("t") or {}).get("k") == "char":
            n = char_lit((c.get("v") or {}).get("d", ""))
            return IntV(Lin(n), "char") if n is not None else Top("char")
        if k == "ty" or k == "param":
            n = self.const_len(fr, c.get("v") if c.get("v") is not None else c.get("n"))
            if n is not None:
                return IntV(n)
            return Top("const param")
        return Top("const %s" % k)

    def float_const(self, bits, ty):
        import struct
        from fractions import Fraction
        if isinstance(bits, str) and not bits.isdigit():
            x = float(bits.replace("_", ""))
        elif ty == "f64":
            bits = int(bits)
            x = struct.unpack("<d", struct.pack("<Q", bits))[0]
        else:
            x = struct.unpack("<f", struct.pack("<I", int(bits)))[0]
        if x == int(x) if abs(x) < 1e15 else False:
            return Poly.const(int(x))
        return Poly.atom(("sym", "float %r" % x))

    def promoted(self, st, fr, c):
        fid = c["d"]
        f = self.F.fns.get(fid)
        key = ("prom", fid, c["i"])
        if f is None or not f.get("prom"):
            return Top("promoted")
        body = f["prom"][c["i"]]
        # promoted bodies are straight-line: evaluate them as a tiny function
        pf = Frame(fid, f, fr.subst, fr.depth + 1)
        outs = self.exec_body(pf, body, st, promoted=True)
        if len(outs) == 1 and outs[0].k == "ret":
            o = outs[0]
            if o.st is not st:
                st.store = o.st.store
            return o.v
        return Top("promoted")

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dest):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["a"])
        if k == "ref" or k == "rawptr":
            p = r["p"]
            l = self.loc(st, fr, p)
            if l is None:
                return Top("ref")
            v = st.store.get(l[0])
            return Ref(l[0], l[1])
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"]))
        if k == "un":
            return self.unop(st, r["op"], self.operand(st, fr, r["a"]))
        if k == "cast":
            return self.cast(st, fr, r["k"], self.operand(st, fr, r["a"]), ty_subst(r["t"], fr.subst))
        if k == "agg":
            return self.aggregate(st, fr, r["k"], [self.operand(st, fr, x) for x in r["a"]])
        if k == "discr":
            v = self.place_read(st, fr, r["p"])
            return self.discr(st, v)
        if k == "repeat":
            v = self.operand(st, fr, r["a"])
            n = r.get("n")
            nl = self.const_len(fr, n)
            return self.repeat(st, v, nl)
        return Top("rvalue %s" % k)

    def const_len(self, fr, n):
        if isinstance(n, int):
            return Lin(n)
        if isinstance(n, str):
            if n.isdigit():
                return Lin(int(n))
            s = fr.subst.get(n)
            if isinstance(s, dict) and s.get("k") == "const":
                return self.const_len(fr, s.get("v"))
            l = Lin.sym("const " + n)
            return l if self.shape is None else Lin(self.shape.const(l))
        if isinstance(n, dict):
            if n.get("k") == "param":
                return self.const_len(fr, n["n"])
            return self.const_len(fr, n.get("v"))
        return None

    def repeat(self, st, v, nl):
        if nl is None:
            return Top("repeat")
        if isinstance(v, RingV):
            if v.p.iszero():
                return Seq(nl, ZERO)
            if nl.isconst() and nl.c <= 8:
                p = ZERO
                for i in range(nl.c):
                    p = p + v.p * xpow(i)
                return Seq(nl, p)
            return Top("repeat")
        if nl.isconst() and nl.c <= 16:
            return Arr([v] * nl.c)
        return Top("repeat")

    def discr(self, st, v):
        if isinstance(v, Agg):
            return IntV(Lin(v.v), "isize")
        if isinstance(v, BoolV):
            return v
        return Top("discr of %s" % type(v).__name__)

    def aggregate(self, st, fr, k, args):
        kk = k.get("k")
        if kk == "tuple":
            return Agg("tuple", 0, args)
        if kk == "adt":
            return Agg(k["p"], k["v"], args)
        if kk == "closure":
            return Agg(("closure", k["d"]), 0, args)
        if kk == "array":
            return self.array_of(args)
        return Agg(str(kk), 0, args)

    def array_of(self, args):
        if args and all(isinstance(a, RingV) for a in args):
            p = ZERO
            n = len(args)
            for i, a in enumerate(args):
                p = p + a.p * xpow(n - 1 - i)
            return Seq(Lin(n), p)
        return Arr(args)

    def unop(self, st, op, a):
        if op == "Not":
            if isinstance(a, BoolV):
                return BoolV(fnot(a.f))
            if isinstance(a, IntV) and a.ty in INT_RANGE and a.ty not in ("char", "bool"):
                lo, hi = INT_RANGE[a.ty]
                return IntV(Lin(lo + hi) - a.l, a.ty)
            return Top("not")
        if op == "Neg":
            if isinstance(a, IntV):
                return IntV(-a.l, a.ty)
            if isinstance(a, RingV):
                return RingV(-a.p)
            return Top("neg")
        if op == "PtrMetadata":
            n = None
            if isinstance(a, Ref):
                n = self.view_len(st, a.b, a.path)
            return IntV(n) if n is not None else Top("len")
        return Top("unop")

    def binop(self, st, op, a, b):
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else op
        if isinstance(a, Ref) or isinstance(b, Ref):
            a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, RingV) and isinstance(b, IntV):
            a = self.as_int(a, b.ty)
        elif isinstance(a, IntV) and isinstance(b, RingV):
            b = self.as_int(b, a.ty)
        if isinstance(a, IntV) and isinstance(b, IntV):
            if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                d = a.l - b.l
                f = {"Lt": lambda: ge(-d - 1), "Le": lambda: ge(-d), "Gt": lambda: ge(d - 1), "Ge": lambda: ge(d),
                     "Eq": lambda: eq(d), "Ne": lambda: fnot(eq(d))}[base]()
                return BoolV(f)
            r = None
            if base == "Add":
                r = a.l + b.l
            elif base == "Sub":
                r = a.l - b.l
            elif base == "Mul":
                r = a.l * b.l
            elif base == "Div":
                r = self.int_div(st, a.l, b.l)
            elif base == "Rem":
                q = self.int_div(st, a.l, b.l)
                if q is not None and q * b.l is not None:
                    r = a.l - q * b.l
            elif base == "Shl" and a.l.isconst() and b.l.isconst():
                r = Lin(a.l.c << b.l.c)
            elif base == "Shr" and b.l.isconst():
                r = self.int_div(st, a.l, Lin(1 << b.l.c))
            elif base == "BitAnd" and b.l.isconst() and (b.l.c & (b.l.c + 1)) == 0 and b.l.c >= 0:
                q = self.int_div(st, a.l, Lin(b.l.c + 1))
                if q is not None:
                    r = a.l - q * (b.l.c + 1)
            if r is None and base == "Mul" and a.ty[0] == "u":
                x, y = sorted((a.l, b.l), key=repr)
                r = Lin.sym(("op", "Mul", x, y))
                st.add_lin(r)
                if wo:
                    return Agg("tuple", 0, (IntV(r, a.ty), BoolV(FALSE)))
                return IntV(r, a.ty)
            if r is None:
                r = self.opaque_int(st, ("op", base, a.l, b.l), a.ty)
                if wo:
                    return Agg("tuple", 0, (IntV(r, a.ty), BoolV(FALSE)))
                return IntV(r, a.ty)
            if wo:
                return Agg("tuple", 0, (IntV(r, a.ty), BoolV(self.overflow(st, r, a.ty, base))))
            return IntV(r, a.ty)
        if isinstance(a, RingV) and isinstance(b, RingV):
            if base in ("Eq", "Ne"):
                f = zf(st.simp(a.p - b.p))
                return BoolV(f if base == "Eq" else fnot(f))
            if base in ("Lt", "Gt", "Le", "Ge"):
                x = a.p - b.p if base in ("Gt", "Le") else b.p - a.p
                f = ("pos", st.simp(x))
                c = f[1].constval()
                if c is not None:
                    f = TRUE if c > 0 else FALSE
                return BoolV(f if base in ("Gt", "Lt") else fnot(f))
            r = {"Add": lambda: a.p + b.p, "Sub": lambda: a.p - b.p, "Mul": lambda: a.p * b.p,
                 "Div": lambda: ring.div(a.p, b.p)}.get(base)
            if r:
                v = RingV(r())
                return Agg("tuple", 0, (v, BoolV(FALSE))) if wo else v
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if base == "Eq":
                return BoolV(for_(fand(a.f, b.f), fand(fnot(a.f), fnot(b.f))))
            if base == "Ne":
                return BoolV(for_(fand(a.f, fnot(b.f)), fand(fnot(a.f), b.f)))
            if base == "BitAnd":
                return BoolV(fand(a.f, b.f))
            if base == "BitOr":
                return BoolV(for_(a.f, b.f))
            if base == "BitXor":
                return BoolV(for_(fand(a.f, fnot(b.f)), fand(fnot(a.f), b.f)))
        if wo:
            return Agg("tuple", 0, (Top("arith"), BoolV(FALSE)))
        return Top("binop %s" % op)

    def overflow(self, st, r, ty, base):
        lo, hi = INT_RANGE.get(ty, (None, None))
        if lo is None:
            return FALSE
        if ty in ("usize", "u64", "u128", "u32", "u16", "u8"):
            # lengths, degrees and counters are assumed to stay below the type's maximum
            if base == "Sub":
                return ge(-r - 1)
            if r.isconst():
                return TRUE if not (lo <= r.c <= hi) else FALSE
            return FALSE
        return for_(ge(Lin(lo) - r - 1), ge(r - hi - 1))

    def opaque_int(self, st, key, ty):
        s = Lin.sym(key)
        if ty.startswith("u"):
            st.add_lin(s)
        from .decide import EVALOPS
        if not (ty.startswith("u") and key[0] == "op" and key[1] in EVALOPS):
            st.approx = st.approx + ("opaque integer %r" % (key,),)
        return s

    def int_div(self, st, a, b):
        if not b.isconst() or b.c <= 0:
            return None
        if a.isconst():
            return Lin(a.c // b.c) if a.c >= 0 else None
        if b.c == 1:
            return a
        if st.decide(ge(a)) is not True:
            return None
        q = Lin.sym(("quot", a, Lin(b.c)))
        st.add_lin(q)
        st.add_lin(a - q * b.c)
        st.add_lin(q * b.c + (b.c - 1) - a)
        return q

    @staticmethod
    def as_int(v, ty):
        """an integer constant met as a coefficient (T::zero(), T::one())"""
        c = v.p.constval()
        return IntV(Lin(int(c)), ty) if c is not None and c == int(c) else v

    FLOAT_EXACT = {"f32": 1 << 24, "f64": 1 << 53}

    def cast(self, st, fr, k, v, t):
        ks = str(k)
        if ks.startswith("PointerCoercion") or ks.startswith("Transmute") or "Transmute" in ks or ks.startswith("PtrToPtr"):
            return v
        if isinstance(v, IntV):
            n = t.get("n", "char" if t.get("k") == "char" else None)
            if t.get("k") == "float":
                m = self.FLOAT_EXACT.get(t.get("n"))
                if m is not None and v.ty not in ("u8", "i8", "u16", "i16") and not (
                        st.decide(ge(Lin(m) - v.l)) is True and st.decide(ge(v.l + m)) is True):
                    # every integer up to 2^(mantissa) is exact; beyond that the cast may round
                    self.rounded[("round:" + t["n"], emb(v.l))] = v.l
                    return RingV(ring.fn("round:" + t["n"], emb(v.l)))
                return RingV(emb(v.l))
            rng = INT_RANGE.get(n)
            if rng is None:
                return Top("cast")
            a = st.decide(ge(v.l - rng[0]))
            if n == "usize" or n == "u64" or n == "u128" or n == "i128":
                if a is True:
                    return IntV(v.l, n)
            else:
                if a is True and st.decide(ge(Lin(rng[1]) - v.l)) is True:
                    return IntV(v.l, n)
            if a is None:
                raise Split(ge(v.l - rng[0]))
            if a is True and n not in ("usize", "u64", "u128", "i128") and st.decide(ge(Lin(rng[1]) - v.l)) is None:
                raise Split(ge(Lin(rng[1]) - v.l))
            # wrapped
            w = Lin.sym(("wrap", v.l, Lin(rng[0]), Lin(rng[1])))
            st.add_lin(w - rng[0])
            st.add_lin(Lin(rng[1]) - w)
            return IntV(w, n)
        if isinstance(v, RingV) and ks.startswith("FloatToInt") and t.get("n") in INT_RANGE:
            # saturating cast of a float: some integer of the target type, a function of the float
            lo, hi = INT_RANGE[t["n"]]
            w = Lin.sym(("f2i", t["n"], v.p))
            st.add_lin(w - lo)
            if t["n"] not in ("usize", "u64", "u128", "i128"):
                st.add_lin(Lin(hi) - w)
            return IntV(w, t["n"])
        if isinstance(v, RingV):
            return RingV(self.M.ring_cast(v.p, ks, t))
        if isinstance(v, BoolV):
            d = st.decide(v.f)
            if d is None:
                raise Split(v.f)
            return IntV(Lin(1 if d else 0), t.get("n", "usize"))
        return Top("cast")

    # ------------------------------------------------------------ execution
    def call_fn(self, st, fid, args, subst, depth):
        """inline a local function: -> [Out ret|panic|...]"""
        f = self.F.fns[fid]
        if depth > self.MAXDEPTH:
            raise GiveUp("call depth at %s" % f["path"])
        c = self.contracts.get(fid)
        if c is not None:
            r = c(self, st, args, subst, depth)
            if r is not None:
                return r
        if any(s == fid for s in self.stack[-12:]) and self.stack.count(fid) > 3:
            raise GiveUp("recursion in %s" % f["path"])
        Stats.fns.add(fid)
        key = self.whole(st, args) if fid in self.stack else None
        if key is not None and any(s == fid and self.argkeys[i] == key for i, s in enumerate(self.stack)):
            return [Out("panic", st, {"kind": "never returns: the call repeats itself with the same arguments", "fn": fid})]
        fr = Frame(fid, f, subst, depth)
        for i, a in enumerate(args):
            st.store[("f", fr.id, i + 1)] = a
        self.stack.append(fid)
        self.argkeys.append(key if key is not None else self.whole(st, args))
        try:
            outs = self.exec_body(fr, f["body"], st)
        finally:
            self.stack.pop()
            self.argkeys.pop()
        return outs

    def whole(self, st, args):
        """the arguments with everything they point at, or None when not all of it is known"""
        def go(v, n):
            if n > 12:
                raise ValueError
            if isinstance(v, Ref):
                try:
                    w = self.deref(st, v)
                except Exception:
                    raise ValueError
                if w is None or isinstance(w, Ref) and w == v:
                    raise ValueError
                return ("&", go(w, n + 1))
            if isinstance(v, Top):
                raise ValueError
            if isinstance(v, FnV):
                return v.key()
            if isinstance(v, V):
                return (type(v).__name__,) + tuple(go(getattr(v, x), n + 1) for x in v.__slots__)
            if isinstance(v, (tuple, list)):
                return tuple(go(x, n + 1) for x in v)
            return v
        try:
            return go(tuple(args), 0)
        except (ValueError, AttributeError, TypeError):
            return None

    def exec_body(self, fr, body, st, promoted=False):
        bl = body["blocks"]
        if promoted:
            cfg = None
        else:
            cfg = self.F.cfg(fr.fid)
        outs = self.region(fr, body, cfg, st, 0, None)
        for o in outs:
            if o.k == "ret":
                o.v = o.st.store.get(("f", fr.id, 0), UNIT)
                if not promoted:
                    for c in [c for c in o.st.store if c[0] == "f" and c[1] == fr.id]:
                        del o.st.store[c]
                else:
                    pass
        return self.merge_rets(outs)

    def merge_rets(self, outs):
        if len(outs) < 3 or self.text is not None:
            return outs
        from .loops import merge_search, gc, refs_in
        for o in outs:
            if o.k == "ret":
                acc = set()
                refs_in(o.v, acc)
                gc(o.st, lambda c: c in acc or c[0] in ("f", "in", "acc", "it", "box"))
        return merge_search(self, outs)

    def region(self, fr, body, cfg, st, start, loop, first=True):
        """execute from block `start`; loop=(header, blocks) when running one
        iteration of that loop body"""
        bl = body["blocks"]
        outs = []
        work = [(st, start, True)]
        while work:
            st, b, entry = work.pop()
            self.steps += 1
            if self.deadline is not None and time.process_time() > self.deadline:
                self.dropped += 1 + len(work)
                break           # constant shapes: what is left is not explored
            if self.steps > self.budget:
                raise GiveUp("analysis budget")
            if len(work) + len(outs) > self.maxstates:
                raise GiveUp("too many partitions")
            if loop is not None and not (entry and b == start):
                if b == loop[0]:
                    outs.append(Out("back", st))
                    continue
                if b not in loop[1]:
                    outs.append(Out("exit", st, b))
                    continue
            if cfg is not None and b in cfg.loops and not (entry and loop is not None and b == loop[0]):
                from .loops import summarise_mir
                for o in summarise_mir(self, fr, body, cfg, st, b):
                    if o.k == "exit":
                        work.append((o.st, o.v, False))
                    else:
                        outs.append(o)
                continue
            for (s2, nxt) in self.exec_block(fr, body, st, b, loop):
                if isinstance(nxt, Out):
                    if nxt.k == "skip":
                        if loop is not None:
                            outs.append(Out("back", s2))
                        else:
                            raise GiveUp("filtered iterator outside a loop")
                    else:
                        outs.append(nxt)
                else:
                    work.append((s2, nxt, False))
        return outs

    def exec_block(self, fr, body, st, b, loop):
        """-> list of (state, next block | Out)"""
        blk = body["blocks"][b]
        states = [st]
        for s in blk["s"]:
            nxt = []
            for x in states:
                nxt += self.exec_stmt(fr, x, s)
            states = nxt
        out = []
        for x in states:
            out += self.exec_term(fr, body, x, blk, b, loop)
        return out

    def with_split(self, st, fn, depth=0):
        """run fn(state) -> list; partition and retry on Split"""
        if depth > 40:
            raise GiveUp("split depth")
        snap = st.copy()
        try:
            return fn(st)
        except Split as s:
            Stats.forks += 1
            out = []
            for g in (s.f, fnot(s.f)):
                for x in snap.copy().assume(g):
                    out += self.with_split(x, fn, depth + 1)
            return out

    def exec_stmt(self, fr, st, s):
        def go(x):
            v = self.rvalue(x, fr, s["r"], s["p"])
            self.place_write(x, fr, s["p"], v)
            return [x]
        r = s["r"]
        if r["r"] in ("use", "ref") and not s["p"]["p"] and (r["r"] == "use" and r["a"]["o"] != "const" and not r["a"]["p"]["p"]):
            return go(st)
        return self.with_split(st, go)

    def branch(self, st, f):
        """-> (true states, false states)"""
        d = st.decide(f)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        if self.generic is not None and f[0] in ("z", "not") and (f if f[0] == "z" else f[1])[0] == "z" and self.generic((f if f[0] == "z" else f[1])[1]):
            # general position: this value is not zero
            n = st.assume(fnot(f) if f[0] == "z" else f)
            return ([], n) if f[0] == "z" else (n, [])
        t = st.copy().assume(f)
        n = st.assume(fnot(f))
        return t, n

    def exec_term(self, fr, body, st, blk, b, loop):
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(st, t["t"])]
        if k == "return":
            return [(st, Out("ret", st))]
        if k == "drop":
            return [(st, t["t"])]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.with_split(st, lambda x: self.do_switch(fr, x, t))
        if k == "assert":
            return self.with_split(st, lambda x: self.do_assert(fr, x, t, blk))
        if k == "call":
            return self.do_call(fr, st, t, blk)
        raise GiveUp("terminator %s" % k)

    def do_switch(self, fr, st, t):
        d = self.operand(st, fr, t["d"])
        out = []
        if isinstance(d, BoolV):
            # switch on bool: value 0 -> false
            tgt = {int(v): bb for v, bb in t["v"]}
            tb = tgt.get(1, t["o"])
            fb = tgt.get(0, t["o"])
            ts, fs = self.branch(st, d.f)
            return [(x, tb) for x in ts] + [(x, fb) for x in fs]
        if isinstance(d, IntV):
            if d.l.isconst():
                for v, bb in t["v"]:
                    if self.sval(v, d.ty) == d.l.c:
                        return [(st, bb)]
                return [(st, t["o"])] if t["o"] is not None else []
            cur = [st]
            for v, bb in t["v"]:
                nxt = []
                for x in cur:
                    ts, fs = self.branch(x, eq(d.l - self.sval(v, d.ty)))
                    out += [(y, bb) for y in ts]
                    nxt += fs
                cur = nxt
            if t["o"] is not None:
                out += [(x, t["o"]) for x in cur]
            return out
        # unknown discriminant: every target is possible
        st.approx = st.approx + ("branch on unknown value (%s)" % getattr(d, "why", type(d).__name__),)
        tg = [bb for _, bb in t["v"]] + ([t["o"]] if t["o"] is not None else [])
        return [(st.copy(), x) for x in dict.fromkeys(tg)]

    def sval(self, v, ty):
        v = int(v)
        r = INT_RANGE.get(ty)
        if r and r[0] < 0 and v > r[1]:
            v -= (r[1] - r[0] + 1)
        return v

    def do_assert(self, fr, st, t, blk):
        c = self.operand(st, fr, t["c"])
        if t["m"] == "overflow:Neg" or (t["m"].startswith("overflow") and isinstance(c, BoolV)):
            pass
        if not isinstance(c, BoolV):
            # divzero / remzero on ring values etc.
            st.approx = st.approx + ("assert on unknown value",)
            return [(st, t["t"])]
        f = c.f if t["e"] else fnot(c.f)
        okk, bad = self.branch(st, f)
        out = [(x, t["t"]) for x in okk]
        for x in bad:
            out.append((x, Out("panic", x, {"kind": t["m"], "fn": fr.fid, "ln": blk.get("ln")})))
        return out

    def do_call(self, fr, st, t, blk):
        Stats.calls += 1
        snap = None
        args = None

        def go(x):
            fv = self.operand(x, fr, t["f"])
            a = [self.operand(x, fr, y) for y in t["a"]]
            return [(x, fv, a)]
        out = []
        for (x, fv, a) in self.with_split(st, go):
            for o in self.invoke(fr, x, fv, a, t, blk):
                if o.k == "ret":
                    if t["t"] is None:
                        continue

                    def wr(y, v=o.v):
                        self.place_write(y, fr, t["d"], v)
                        return [(y, t["t"])]
                    out += self.with_split(o.st, wr)
                else:
                    if o.k == "panic" and isinstance(o.v, dict) and "ln" not in o.v:
                        o.v["fn"] = fr.fid
                        o.v["ln"] = blk.get("ln")
                    out.append((o.st, o))
        return out

    def invoke(self, fr, st, fv, args, t=None, blk=None):
        """call an arbitrary callable value"""
        if isinstance(fv, Ref):
            fv = self.deref(st, fv)
        if isinstance(fv, Agg) and isinstance(fv.k, tuple) and fv.k[0] == "closure":
            return self.call_closure(fr, st, fv, args)
        if isinstance(fv, FnV):
            f = fv.f
            sub = fr.subst
            a = [ty_subst(x, sub) for x in f.get("a", [])]
            return self.call_path(fr, st, f, a, args)
        st.approx = st.approx + ("call of unknown value",)
        return [Out("ret", st, Top("call of unknown"))]

    def call_closure(self, fr, st, cl, args, selfref=None):
        """cl: closure Agg (by value) or Ref to it via selfref"""
        did = cl.k[1]
        f = self.F.fns.get(did)
        if f is None:
            return [Out("ret", st, Top("closure"))]
        argc = f["body"]["argc"]
        lt = f["body"]["locals"][1] if argc else None
        if lt and lt.get("k") == "ref":
            env = selfref if selfref is not None else self.new_ref(st, cl)
        else:
            env = cl
        a = [env]
        if argc - 1 == len(args):
            a += args
        elif len(args) == 1 and isinstance(args[0], Agg) and args[0].k == "tuple":
            a += list(args[0].fs)
        else:
            a += args
        return self.call_fn(st, did, a, fr.subst, fr.depth + 1)

    def call_path(self, fr, st, f, gargs, args):
        """f: fn descriptor"""
        rid = f.get("r")
        did = f.get("d")
        if str(f.get("tr")).startswith("core::ops::function::Fn") and len(args) == 2 and isinstance(args[1], Agg) and args[1].k == "tuple" and rid in self.F.fns and self.F.fns[rid].get("body"):
            # closure called by name: the arguments arrive as one tuple
            cl = self.deref(st, args[0]) if isinstance(args[0], Ref) else args[0]
            if isinstance(cl, Agg) and isinstance(cl.k, tuple):
                return self.call_closure(fr, st, cl, list(args[1].fs), args[0] if isinstance(args[0], Ref) else None)
        # locally defined, statically resolved
        if rid in self.F.fns and (f.get("tr") is None or rid != did or True) and self.F.fns[rid].get("body"):
            ra = [ty_subst(x, fr.subst) for x in f.get("ra", [])]
            if f.get("tr") is None or rid != did:
                return self.call_fn(st, rid, args, self.bind(rid, ra), fr.depth + 1)
        if f.get("tr"):
            sty = gargs[0] if gargs else None
            r = self.resolve(f["tr"], f["n"], sty, gargs[1:])
            if r is not None:
                mid, sub = r
                # method-level generics
                base = self.bind(mid, gargs)
                s2 = dict(base)
                s2.update(sub)
                return self.call_fn(st, mid, args, s2, fr.depth + 1)
        return self.M.call(self, fr, st, f, gargs, args)

    def bind(self, fid, args):
        g = self.F.fns[fid]["gens"]
        s = {}
        for i, n in g:
            if n and i < len(args):
                s[n] = args[i]
        return s

    def resolve(self, trait, name, sty, targs):
        if sty is None:
            return None
        base = sty
        while base.get("k") == "ref":
            base = base["t"]
        if base.get("k") != "adt" or base["p"] not in self.F.adt_by_path:
            if base.get("k") not in ("int", "float"):
                return None
            if not self.concrete_numeric:
                return None
        r = self.F.find_impl(trait, sty, targs)
        if r is None:
            return None
        im, sub = r
        for n, did in im["items"]:
            if n == name and did in self.F.fns:
                return did, sub
        d = self.F.trait_default.get((trait, name))
        if d and d in self.F.fns:
            s2 = dict(sub)
            s2["Self"] = sty
            return d, s2
        return None

    concrete_numeric = False
    peel = False
