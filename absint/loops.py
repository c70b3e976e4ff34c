"""Loop summarisation: every loop is replaced by closed forms of its carried
cells in the number k of completed iterations (induction on recurrences), plus
universally quantified facts about the iterations already done."""
import time
from .lin import Lin, L
from . import ring
from .ring import Poly, ZERO, ONE, X, el, fresh, emb, xpow, sum_half, sum_range, full
from .values import *
from .state import State, Split, GiveUp, Stats, plain
from .interp import Out

MAXUNROLL = 9


# ------------------------------------------------------------------ leaves
def diff(a, b, path, acc):
    if a is b or a == b:
        return
    if type(a) is type(b):
        if isinstance(a, IntV) and a.ty == b.ty:
            acc[path + (("l",),)] = "int"
            return
        if isinstance(a, RingV):
            acc[path + (("p",),)] = "ring"
            return
        if isinstance(a, BoolV):
            acc[path + (("f",),)] = "bool"
            return
        if isinstance(a, Seq):
            if a.n != b.n:
                acc[path + (("n",),)] = "int"
            if a.p != b.p:
                acc[path + (("c",),)] = "content"
            return
        if isinstance(a, MapV):
            acc[path + (("c",),)] = "content"
            return
        if isinstance(a, Opaque) and a.tag == b.tag and a.p is not None and b.p is not None:
            acc[path + (("c",),)] = "content"
            return
        if isinstance(a, Agg) and a.k == b.k and a.v == b.v and len(a.fs) == len(b.fs):
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                diff(x, y, path + (("g", i),), acc)
            return
        if isinstance(a, Arr) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                diff(x, y, path + (("a", i),), acc)
            return
        if isinstance(a, IterV) and a.t == b.t:
            acc[path + (("o",),)] = "int"
            return
        if isinstance(a, Trace):
            acc[path] = "trace"
            return
        if isinstance(a, Ref) and a.b == b.b and len(a.path) == len(b.path):
            tmp = {}
            okk = True
            for i, (x, y) in enumerate(zip(a.path, b.path)):
                if x == y:
                    continue
                if x[0] != y[0] or len(x) != len(y):
                    okk = False
                    break
                for j in range(1, len(x)):
                    if x[j] != y[j]:
                        if isinstance(x[j], Lin):
                            tmp[path + (("r", i, j),)] = "int"
                        else:
                            okk = False
            if okk:
                acc.update(tmp)
                return
    acc[path] = "any"


def get(v, path):
    for s in path:
        k = s[0]
        if v is None:
            return None
        try:
            if k == "l":
                v = v.l
            elif k in ("p", "c"):
                v = v.p
            elif k == "f":
                v = v.f
            elif k == "n":
                v = v.n
            elif k == "g":
                v = v.fs[s[1]]
            elif k == "a":
                v = v.items[s[1]]
            elif k == "o":
                v = v.pos
            elif k == "r":
                v = v.path[s[1]][s[2]]
        except (AttributeError, IndexError):
            return None
    return v


def put(v, path, x):
    if not path:
        return x
    s = path[0]
    k = s[0]
    if k == "l":
        return IntV(x, v.ty)
    if k == "p":
        return RingV(x)
    if k == "f":
        return BoolV(x)
    if k == "n":
        return Seq(x, v.p)
    if k == "c":
        if isinstance(v, Seq):
            return Seq(v.n, x)
        if isinstance(v, MapV):
            return MapV(x, v.ks)
        return Opaque(v.tag, x)
    if k == "g":
        fs = list(v.fs)
        fs[s[1]] = put(fs[s[1]], path[1:], x)
        return Agg(v.k, v.v, fs)
    if k == "a":
        it = list(v.items)
        it[s[1]] = put(it[s[1]], path[1:], x)
        return Arr(it)
    if k == "o":
        return IterV(v.t, x)
    if k == "r":
        p = list(v.path)
        e = list(p[s[1]])
        e[s[2]] = x
        p[s[1]] = tuple(e)
        return Ref(v.b, p)
    raise GiveUp("leaf path")


def sget(st, lf):
    return get(st.store.get(lf[0]), lf[1:])


def sput(st, lf, x):
    st.store[lf[0]] = put(st.store[lf[0]], lf[1:], x)


# ------------------------------------------------------------------ driver
def refs_in(v, acc):
    if isinstance(v, Ref):
        acc.add(v.b)
        return
    if isinstance(v, V):
        if isinstance(v, FnV):
            return
        for s in v.__slots__:
            refs_in(getattr(v, s), acc)
    elif isinstance(v, tuple):
        for x in v:
            refs_in(x, acc)


def gc(st, keep):
    """drop heap / frame cells not reachable from keep(cell)"""
    todo = [c for c in st.store if c[0] == "log" or keep(c)]
    seen = set(todo)
    while todo:
        c = todo.pop()
        a = set()
        refs_in(st.store[c], a)
        for x in a:
            if x not in seen and x in st.store:
                seen.add(x)
                todo.append(x)
    if len(seen) != len(st.store):
        st.store = {c: v for c, v in st.store.items() if c in seen}


def summarise_mir(I, fr, body, cfg, st, header):
    live = cfg.live[header]
    blocks = cfg.loops[header]

    def keep(c):
        if c[0] == "f":
            return c[1] != fr.id or c[2] in live or c[2] == 0
        return c[0] in ("h", "it", "acc", "in") and False or c[0] == "in" or c[0] == "acc" or c[0] == "it"
    gc(st, keep)
    if not hasattr(I, "loopctx"):
        I.loopctx = []

    def run(x):
        I.loopctx.append(fr.id)
        try:
            return I.region(fr, body, cfg, x, header, (header, blocks))
        finally:
            I.loopctx.pop()
    name = "%s:%s" % (fr.fn["path"], body["blocks"][header].get("ln"))
    Stats.loops.setdefault(name, "")
    if I.text is not None:
        outs = I.text.fix(I, st, run, keep)
        if outs is not None:
            return outs
    outs = summarise(I, st, run, name)
    return outs


def summarise(I, st, body, tag):
    def go(x):
        return _summarise(I, x, body, tag)
    return I.with_split(st, go)


def entry_names(I, st):
    """give non-trivial contents a name so that they can be read pointwise"""
    for c, v in list(st.store.items()):
        w = name_in(st, v)
        if w is not v:
            st.store[c] = w


def name_in(st, v):
    if isinstance(v, Seq):
        if v.n.isconst():
            return v
        p = st.name(v.p, v.n, "C")
        return v if p is v.p else Seq(v.n, p)
    if isinstance(v, MapV):
        p = st.name(v.p, None, "C")
        return v if p is v.p else MapV(p, v.ks)
    if isinstance(v, Agg):
        fs = [name_in(st, x) for x in v.fs]
        if any(x is not y for x, y in zip(fs, v.fs)):
            return Agg(v.k, v.v, fs)
    return v


def strip(v):
    """shape of a value with integers and coefficients abstracted"""
    if isinstance(v, IntV):
        return ("int", v.ty)
    if isinstance(v, RingV):
        return ("ring",)
    if isinstance(v, Agg):
        return (v.k, v.v) + tuple(strip(x) for x in v.fs)
    return v


def scal(v):
    if isinstance(v, IntV):
        return [v.l]
    if isinstance(v, RingV):
        return [v.p]
    if isinstance(v, Agg):
        return [x for f in v.fs for x in scal(f)]
    return []


def put_scal(v, it):
    if isinstance(v, IntV):
        return IntV(next(it), v.ty)
    if isinstance(v, RingV):
        return RingV(next(it))
    if isinstance(v, Agg):
        return Agg(v.k, v.v, [put_scal(x, it) for x in v.fs])
    return v


def merge_search(I, outs):
    if I.shape is not None:
        return outs
    """partitions that only differ in where the leading non-zero coefficient was
    found are one partition with a symbolic position"""
    if any(o.k != "ret" for o in outs):
        return outs
    groups = {}
    for o in outs:
        groups.setdefault(strip(o.v), []).append(o)
    res = []
    for key, os in groups.items():
        if len(os) < 2:
            res += os
            continue
        subs = []
        for o in os:
            for g in subs:
                a = g[0].st.store
                if all(a[c] == v for c, v in o.st.store.items() if c in a):
                    g.append(o)
                    break
            else:
                subs.append([o])
        for g in subs:
            res += merge_group(I, g) if len(g) > 1 else g
    return res


def common_prefix(os, f):
    out = []
    first = f(os[0])
    for x in first:
        if all(x in f(o) for o in os[1:]):
            out.append(x)
    return tuple(out)


def merge_group(I, os):
    cells = set(os[0].st.store)
    for o in os[1:]:
        cells &= set(o.st.store)
    if any(o.st.store[c] != os[0].st.store[c] for o in os[1:] for c in cells):
        return os
    Ps = set()
    for o in os:
        Ps |= {P for P, lo, hi in o.st.zr}
        for q in o.st.nz:
            a = single_el(q)
            if a is not None:
                Ps.add(a[1])
    for P in sorted(Ps):
        N = os[0].st.sup.get(P)
        if N is None:
            continue
        found, none, rest = [], [], []
        for o in os:
            e = leading(o.st, P, N)
            if e is not None:
                found.append((o, e))
            elif covered(o.st, P, Lin(0), N):
                none.append(o)
            else:
                rest.append(o)
        res = []
        done = False
        if len(found) > 1:
            found, spill = mergeable(found, P, N)
            rest += spill
        if len(found) > 1:
            S = Lin.sym(fresh("d"))
            vals = []
            for i in range(len(scal(os[0].v))):
                xs = [scal(o.v)[i] for o, e in found]
                if isinstance(xs[0], Poly):
                    if all(x == el(P, e) for x, (o, e) in zip(xs, found)):
                        vals.append(el(P, S))
                    elif all(x == xs[0] for x in xs):
                        vals.append(xs[0])
                    else:
                        break
                elif len({x - e for x, (o, e) in zip(xs, found)}) == 1:
                    vals.append(xs[0] - found[0][1] + S)
                elif len({x + e for x, (o, e) in zip(xs, found)}) == 1:
                    vals.append(xs[0] + found[0][1] - S)
                elif all(x == xs[0] for x in xs):
                    vals.append(xs[0])
                else:
                    break
            else:
                fo = [o for o, e in found]
                st = base_of(fo, cells)
                st.add_lin(S)
                st.add_lin(N - 1 - S)
                st.add_zr(P, S + 1, None)
                st.add_nz(el(P, S))
                st.path = st.path + (fnot(zf(el(P, S))),)
                res.append(Out("ret", st, put_scal(os[0].v, iter(vals))))
                done = True
        if not done:
            res += [o for o, e in found]
        if len(none) > 1:
            own = set(ring._lsyms(N))
            for o in none:
                for z in o.st.zr:
                    if z[0] == P:
                        syms_any(z[1:], own)
            g = {}
            for o in none:
                g.setdefault(foreign_facts(o.st, P, own), []).append(o)
            best = max(g.values(), key=len)
            rest += [o for o in none if o not in best]
            none = best
        if len(none) > 1 and all(o.v == none[0].v for o in none):
            st = base_of(none, cells)
            st.add_zr(P, None, None)
            res.append(Out("ret", st, none[0].v))
            done = True
        else:
            res += none
        if done:
            return res + rest
    return os


def mergeable(found, P, N):
    """largest set of partitions whose differing facts only locate P's leading term"""
    groups = []
    own = set(ring._lsyms(N))
    for o, e in found:
        own |= ring._lsyms(e)
    for o, e in found:
        k = foreign_facts(o.st, P, own)
        for g in groups:
            if g[0] == k:
                g[1].append((o, e))
                break
        else:
            groups.append((k, [(o, e)]))
    best = max(groups, key=lambda g: len(g[1]))
    return best[1], [o for g in groups if g is not best for o, e in g[1]]


def foreign_facts(st, P, own):
    """facts of the partition that are not about where P's leading term is"""
    zr = frozenset(z for z in st.zr if z[0] != P)

    def about(q):
        return any(not (a[0] == "el" and a[1] == P) for a in q.atoms())
    # consequences, through P's definition, of facts about P's own coefficients
    der = set()
    if P in st.defs:
        bare = st.copy()
        bare.zs = bare.nz = ()
        for x in (st, bare):
            der |= {x._source(q) for q in st.zs + st.nz if not about(q)}
    zs = frozenset(q for q in st.zs if about(q) and q not in der)
    nz = frozenset(q for q in st.nz if about(q) and q not in der)
    # linear facts that bind other symbols
    lin = frozenset(l for l in st.lin if not (ring._lsyms(l) <= own))
    bools = frozenset((f, b) for f, b in st.bools.items())
    return (zr, zs, nz, lin, bools, st.approx)


def leading(st, P, N):
    for q in st.nz:
        a = single_el(q)
        if a is not None and a[1] == P and covered(st, P, a[2] + 1, N):
            return a[2]
    return None


def single_zero(st, P, e):
    return st.decide(zf(el(P, e)))


def covered(st, P, lo, hi):
    return st.covered(P, lo, hi)


def base_of(os, cells):
    a = os[0].st
    st = a.copy()
    st.store = {c: v for c, v in a.store.items() if c in cells}
    st.lin = common_prefix(os, lambda o: o.st.lin)
    st.zs = common_prefix(os, lambda o: o.st.zs)
    st.nz = common_prefix(os, lambda o: o.st.nz)
    st.zr = common_prefix(os, lambda o: o.st.zr)
    st.univ = common_prefix(os, lambda o: o.st.univ)
    st.path = common_prefix(os, lambda o: o.st.path)
    st.bools = {f: b for f, b in a.bools.items() if all(o.st.bools.get(f) == b for o in os)}
    st.defs = {}
    st.sup = {}
    st.late = {}
    for o in os:
        st.late.update(o.st.late)
        st.defs.update(o.st.defs)
        st.sup.update(o.st.sup)
    st.approx = tuple(dict.fromkeys(x for o in os for x in o.st.approx))
    st._ec = None
    return st


class Lp:
    pass


def backs_of(outs):
    return [o for o in outs if o.k == "back"]


def find_mod(I, st0, body):
    """-> (mod leaves, generalised state info, outs) or 'unroll'"""
    mod = {}
    for rnd in range(12):
        S, lv = generalise(st0, mod, {})
        try:
            outs = body(S.copy())
        except GiveUp as e:
            if str(e) == "from_fn result" and mod:
                return "unroll"
            raise
        new = {}
        for o in backs_of(outs):
            for c, v in S.store.items():
                w = o.st.store.get(c)
                if w is None:
                    continue
                if w is v:
                    continue
                acc = {}
                diff(v, w, (), acc)
                for p, k in acc.items():
                    new[(c,) + p] = k
        add = {}
        for lf, k in new.items():
            if lf not in mod:
                add[lf] = k
        if not add:
            return mod
        for lf, k in add.items():
            # a coarser leaf replaces finer ones
            for o in list(mod):
                if o[:len(lf)] == lf and o != lf:
                    del mod[o]
            if any(lf[:len(o)] == o and mod[o] == "any" for o in mod):
                continue
            mod[lf] = k
            if k == "int" and lf[-1] == ("o",):
                it = get(st0.store[lf[0]], lf[1:-1])
                if const_trip(I, st0, it):
                    return "unroll"
    raise GiveUp("loop shape does not stabilise")


def const_trip(I, st, it):
    try:
        n = I.M.tree_len(I, st, it.t)
    except Split:
        return False
    return n is not None and n.isconst() and it.pos.isconst() and n.c - it.pos.c <= (MAXUNROLL if not I.M.is_filtered(it.t) else 4)


def generalise(st0, mod, closed):
    """state in which modified leaves are arbitrary; closed: leaf -> value"""
    S = st0.copy()
    lv = {}
    for lf, kind in mod.items():
        if lf in closed:
            sput(S, lf, closed[lf])
            continue
        if kind == "int":
            s = fresh("v")
            lv[lf] = s
            sput(S, lf, Lin.sym(s))
            if intty(S, lf).startswith("u"):
                S.add_lin(Lin.sym(s))
        elif kind == "ring":
            a = ("lv", fresh("r"))
            lv[lf] = a
            sput(S, lf, Poly.atom(a))
        elif kind == "content":
            P = fresh("lv")
            lv[lf] = P
            sput(S, lf, full(P))
        elif kind == "bool":
            a = ("atom", "lv", fresh("b"))
            lv[lf] = a
            sput(S, lf, a)
        elif kind == "trace":
            lv[lf] = ("lvtrace", fresh("t"))
            S.store[lf[0]] = put(S.store[lf[0]], lf[1:], Trace((lv[lf],)))
        else:
            t = Top("loop-carried %s" % fresh("w"))
            lv[lf] = t
            sput(S, lf, t)
    for lf, a in lv.items():
        if mod[lf] == "content":
            v = get(S.store[lf[0]], lf[1:-1])
            S.sup[a] = v.n if isinstance(v, Seq) else None
    return S, lv


def intty(st, lf):
    if lf[-1] == ("l",):
        v = get(st.store[lf[0]], lf[1:-1])
        return v.ty
    return "usize"


def lvset(lv):
    s = set()
    for a in lv.values():
        s.add(a)
    return s


def mentions(x, lvs):
    """does value/poly/lin x mention any loop-carried placeholder?"""
    sy = syms_any(x, set())
    if any(v in sy for v in lvs if isinstance(v, str)):
        return True
    at = atoms_any(x, set())
    for a in at:
        if a in lvs:
            return True
        if a[0] in ("el", "pres") and a[1] in lvs:
            return True
    return tops_in(x, lvs)


def tops_in(x, lvs):
    if isinstance(x, Top):
        return x in lvs
    if isinstance(x, V):
        if isinstance(x, FnV):
            return False
        return any(tops_in(getattr(x, s), lvs) for s in x.__slots__)
    if isinstance(x, tuple):
        if x in lvs:
            return True
        return any(tops_in(y, lvs) for y in x)
    return False


def known_syms(S, k):
    """integer symbols and content names that exist at the loop header"""
    acc = set()
    for v in S.store.values():
        syms_any(v, acc)
    for l in S.lin:
        acc |= ring._lsyms(l)
    for P, lo, hi in S.zr:
        syms_any((lo, hi), acc)
    for n in S.sup.values():
        if n is not None:
            syms_any(n, acc)
    for p in S.defs.values():
        syms_any(p, acc)
    for x in S.zs + S.nz:
        syms_any(x, acc)
    acc.add(k)
    return acc


def tidy(o, S):
    """simplify carried values on a back edge and unfold names local to the iteration"""
    st = o.st
    local = set(st.defs) - set(S.defs)

    def f(p):
        q = st.simp(p)
        if local and any(a[0] == "el" and a[1] in local for a in q.atoms()):
            try:
                q = st.simp(st.expand(q, local))
            except (GiveUp, Split):
                pass
        return q
    for c, v in list(st.store.items()):
        if c in S.store and S.store[c] is not v:
            st.store[c] = map_polys(v, f)


class LocalSyms:
    """membership test: does a value mention something born inside the iteration?"""

    def __init__(self, S, k):
        self.known = known_syms(S, k)
        self.names = set(S.sup) | set(S.defs)

    def foreign(self, x):
        for s in syms_any(x, set()):
            if s not in self.known and not (isinstance(s, str) and s.startswith("\u03b2")):
                if isinstance(s, tuple):
                    if all(y in self.known for y in ring._lsyms(Lin.sym(s)) if y != s):
                        continue
                return True
        for a in atoms_any(x, set()):
            if a[0] in ("el", "pres") and a[1] not in self.names:
                return True
        return False


DEBUG = False
VAGUE = "which iterations update a carried value"


def _summarise(I, st, body, tag):
    """summary of the loop; where the summary is vague about which iterations update
    a carried value, the first iteration is taken apart from the others"""
    snap = st.copy()
    res = __summarise(I, st, body, tag)
    if I.shape is not None or not I.peel or VAGUE in snap.approx or not any(VAGUE in o.st.approx for o in res):
        return res
    try:
        alt = []
        for o in body(snap.copy()):
            if o.k == "back":
                alt += __summarise(I, o.st, body, tag)
            else:
                alt.append(o)
    except GiveUp:
        return res
    if sum(VAGUE in o.st.approx for o in alt) < sum(VAGUE in o.st.approx for o in res):
        return alt
    return res


def __summarise(I, st, body, tag):
    st0 = st
    if I.shape is not None:
        return follow(I, st0, body, tag)
    r = straight(I, st0, body)
    if r is not None:
        return r
    entry_names(I, st0)
    mod = find_mod(I, st0, body)
    if mod == "unroll":
        return unroll(I, st0, body)
    k = fresh("k")
    K = Lin.sym(k)
    closed = {}

    # ---- integers
    base0 = st0.copy()
    base0.add_lin(K)
    for rnd in range(4):
        S, lv = generalise(base0, mod, closed)
        add_invs(S, None)
        outs = body(S.copy())
        bk = backs_of(outs)
        if not bk:
            break
        got = False
        for lf, kind in mod.items():
            if kind != "int" or lf in closed:
                continue
            s = Lin.sym(lv[lf])
            ds = [sget(o.st, lf) for o in bk]
            if any(not isinstance(d, Lin) for d in ds):
                continue
            dd = {d - s for d in ds}
            if len(dd) == 1:
                d = dd.pop()
                if d.isconst():
                    closed[lf] = sget(st0, lf) + K * d.c
                    got = True
                    continue
        if not got:
            break
    # ---- header facts that hold for every k
    invs = []
    zrs = []
    unk = {}
    partitions = None
    facts = Facts_(k, invs, zrs)
    for rnd in range(3):
        base = base0.copy()
        facts.apply(base, Lin(0), K)
        S, lv = generalise(base, mod, closed)
        outs = body(S.copy())
        bk = backs_of(outs)
        for o in bk:
            tidy(o, S)
        loc = LocalSyms(S, k)
        ch = facts.learn(st0, S, bk, lvset(lv), loc)
        r = solve(I, st0, S, bk, mod, closed, lv, k, loc)
        closed.update(r)
        if r:
            ch = True
        if not ch:
            break
    open_ = [lf for lf in mod if lf not in closed]
    if open_ and bk:
        bs = running_bounds(st0, S, bk, mod, lv, k, open_, loc)
        if bs:
            S = S.copy()
            for l in bs:
                S.add_lin(l)
            outs = body(S.copy())
            bk = backs_of(outs)
            for o in bk:
                tidy(o, S)
            loc = LocalSyms(S, k)
            facts.learn(st0, S, bk, lvset(lv), loc)
    lossy = forgets(S, outs, facts, k)
    # ---- leaves without a closed form
    plans = [({}, lambda h: [h])]
    if open_ and bk:
        plans = leading_terms(I, st0, base0, S, outs, bk, body, mod, closed, lv, k, open_, facts, tag)
        if plans is None:
            plans = open_leaves(I, st0, S, bk, mod, closed, lv, k, open_, facts, tag)
    res = []
    seen_k = False
    for extra, prep in plans:
        h = base0.copy()
        facts.apply(h, Lin(0), K)
        cl = dict(closed)
        cl.update(extra)
        H, lv2 = generalise(h, mod, cl)
        assert not lv2, "open leaves left"
        if not H.feasible():
            continue
        for hh in prep(H):
            if lossy:
                hh.approx = hh.approx + (lossy,)
            outs = body(hh)
            for o in outs:
                if o.k == "back":
                    continue
                res.append(Out(o.k, elim(I, o.st, k, o), o.v))
    # k may have been solved inside values carried by the outcome
    return [finish(o) for o in res]


def straight(I, st, body):
    """a loop whose control is decided by constants is followed directly"""
    if not any(has_const_int(v) for v in st.store.values()):
        return None
    x = st.copy()
    for n in range(40):
        try:
            outs = body(x.copy())
        except GiveUp:
            return None
        if len(outs) != 1:
            return outs if n and outs and not backs_of(outs) else None
        if outs[0].k != "back":
            return outs
        if n == 0 and I.straight_budget <= 0:
            return None
        I.straight_budget -= 1
        x = outs[0].st
    return None


def follow(I, st, body, tag="loop"):
    """constant shapes: every iteration is its own trace partition; surplus
    partitions are dropped (the result is only used to exhibit a violation), as is
    what half of the time left does not reach"""
    end = I.deadline
    if end is None:
        return _follow(I, st, body, tag)
    now = time.process_time()
    I.deadline = now + max(end - now, 0) * 0.5
    try:
        return _follow(I, st, body, tag)
    finally:
        I.deadline = end


def _follow(I, st, body, tag):
    res, work = [], [st]
    for n in range(200):
        nxt = []
        for x in work:
            if I.deadline is not None and time.process_time() > I.deadline:
                I.dropped += len(work)
                break
            head = dict(x.store)
            for o in body(x):
                if o.k != "back":
                    res.append(o)
                elif not o.st.approx and stuck(head, o.st.store):
                    res.append(Out("panic", o.st, {"kind": "never ends: an iteration changes nothing", "fn": tag}))
                elif I.rounds is not None and n >= I.rounds:
                    res.append(Out("panic", o.st, {"kind": "more than %d rounds: a round does not lower the degree" % n, "fn": tag}))
                elif sum(size(v) for v in o.st.store.values()) < 31 * I.follow:
                    nxt.append(o.st)
                else:
                    I.dropped += 1
        if len(nxt) > I.follow:
            I.dropped += len(nxt) - I.follow
            nxt = I.shape.sample(nxt, I.follow)
        if not nxt:
            break
        work = nxt
    else:
        if not res:
            raise GiveUp("no exit within 200 iterations")
    if len(res) > I.follow:
        I.dropped += len(res) - I.follow
        ps = [o for o in res if o.k == "panic"][:4]
        res = I.shape.sample([o for o in res if o not in ps], I.follow - len(ps)) + ps
    return res


def size(v):
    """number of factors in the contents of a value, nested expressions included"""
    if isinstance(v, Poly):
        return psize(v)
    if isinstance(v, FnV):
        return 0
    if isinstance(v, V):
        return sum(size(getattr(v, s)) for s in v.__slots__)
    if isinstance(v, tuple):
        return sum(size(x) for x in v)
    return 0


def psize(p):
    n = 0
    for (b, fs) in p.t:
        for a, e in fs:
            n += 1
            if a[0] in ("div", "fn", "ite", "coef"):
                n += sum(size(x) for x in a[1:])
        if n > 4000:
            break
    return n


def stuck(a, b):
    """the store after an iteration is the store before it, with nothing unknown in it"""
    for c, v in b.items():
        if c not in a or has_top(v) or not (v is a[c] or v == a[c]):
            return False
    return True


def has_top(v):
    if isinstance(v, Top):
        return True
    if isinstance(v, FnV):
        return False
    if isinstance(v, V):
        return any(has_top(getattr(v, s)) for s in v.__slots__)
    if isinstance(v, tuple):
        return any(has_top(x) for x in v)
    return False


def has_const_int(v):
    if isinstance(v, IntV):
        return v.l.isconst()
    if isinstance(v, Agg):
        return any(has_const_int(x) for x in v.fs)
    if isinstance(v, IterV):
        return True
    return False


def add_invs(S, x):
    pass


def finish(o):
    m = getattr(o.st, "_ksub", None) if False else None
    return o


def elim(I, st, k, o):
    """replace the iteration count by its value when the exit condition fixes it"""
    K = Lin.sym(k)
    for l in st.lin:
        c = l.coef(k)
        if c in (1, -1) and st.entails(-l):
            sol = (K - l * c)
            if k in sol.syms():
                continue
            m = {k: sol}
            st.subst_ints(m)
            o.v = sub_out(o.v, m)
            zr, st.zr = st.zr, ()
            for z in zr:
                st.add_zr(*z)
            break
    for c, v in list(st.store.items()):
        w = map_polys(v, st.simp)
        if w != v:
            st.store[c] = w
    return st


def sub_out(v, m):
    if isinstance(v, dict):
        return v
    return sub_any(v, m)


def unroll(I, st, body):
    res = []
    work = [st]
    for it in range(MAXUNROLL + 3):
        nxt = []
        for x in work:
            for o in body(x):
                if o.k == "back":
                    nxt.append(o.st)
                else:
                    res.append(o)
        if not nxt:
            return res
        work = nxt
        if len(work) > 400:
            raise GiveUp("unrolled loop has too many partitions")
    raise GiveUp("unrolled loop does not end")


def forgets(S, outs, facts, k):
    """the recorded facts about a completed iteration exclude every way of leaving the
    loop in it, else they say less than the iteration's path condition: -> reason"""
    K = Lin.sym(k)
    for o in outs:
        if o.k == "back" or any(f[0] == "nokeys" for f in o.st.path[len(S.path):]):
            continue        # leaving at the end of a map's keys
        if possible(o.st, facts, facts.each, facts.univ, k):
            return "conditions of earlier iterations (%s)" % o.k
    return None


def possible(st, facts, each, univ, k):
    x = st.copy()
    K = Lin.sym(k)
    for l in facts.lin:
        x.add_lin(l.subst({k: K + 1}))
    if not x.feasible():
        return False
    from .oblig import contradictory
    for P, i in facts.absent:
        if x.bools.get(("pres", full(P), i)) is True:
            return False
    for p in [Poly.atom(("el", P, i)) for P, i in each] + list(univ):
        p = x.simp(p)
        if x.decide(zf(p)) is False:
            return False
        x.add_zero(p)
    return x.feasible() and not contradictory(x)


def running_bounds(st0, S, bk, mod, lv, k, open_, loc):
    """integer cells that keep the value of a past iteration are bounded by the
    sequence they are taken from when that sequence is monotone"""
    lvs = lvset(lv)
    out = []
    for lf in open_:
        if mod[lf] != "int":
            continue
        vals = [raw(o.st, lf) for o in bk]
        me = raw(S, lf)
        v0 = raw(st0, lf)
        if not all(isinstance(v, Lin) for v in vals + [me, v0]):
            continue
        upd = [(o, v) for o, v in zip(bk, vals) if v != me]
        if not upd or any(mentions(v, lvs) or loc.foreign(v) for _, v in upd):
            continue
        for _, v in upd:
            c = v.coef(k)
            if c == 0:
                continue
            sg = 1 if c > 0 else -1
            prev = v.subst({k: Lin.sym(k) - 1})
            if st0.entails((v.subst({k: Lin(-1)}) - v0) * sg) and \
                    all(o.st.entails((v - w) * sg) for o, w in upd):
                out.append((prev - me) * sg)
    return out


# ------------------------------------------------------------------ facts
class Facts_:
    """facts about the first k iterations"""

    def __init__(self, k, invs, zrs):
        self.k = k
        self.lin = []      # Lin in k: holds at the header
        self.each = []     # (P, idx(k)) zero in every completed iteration
        self.univ = []     # poly(k) zero in every completed iteration
        self.absent = []   # (P, idx(k)) not a key in any completed iteration

    def apply(self, st, lo, hi):
        """facts about iterations lo..hi-1"""
        for l in self.lin:
            st.add_lin(l)
        for (P, a, b) in merge_ranges(self.absent, self.k, lo, hi):
            f = ("nokeys", P, a, b)
            if f not in st.path:
                st.path = st.path + (f,)
        self.apply_each(st, lo, hi, self.each, self.univ)

    def apply_each(self, st, lo, hi, each, univ):
        for (P, a, b) in merge_ranges(each, self.k, lo, hi):
            st.add_zr(P, a, b)
        for p in univ:
            st.univ = st.univ + ((self.k, lo, hi, p),)

    def learn(self, st0, S, bk, lvs, loc):
        K = Lin.sym(self.k)
        ch = False
        if not bk:
            return False
        old = set(S.lin)
        for l in bk[0].st.lin:
            if l in old or l.coef(self.k) == 0 or (set(l.syms()) & {x for x in lvs if isinstance(x, str)}):
                continue
            if any(isinstance(s, tuple) and s != self.k and self.k in ring._lsyms(Lin.sym(s)) for s in l.syms()):
                continue
            if loc.foreign(l):
                continue
            if not all(o.st.entails(l) for o in bk[1:]):
                continue
            if not st0.entails(l.subst({self.k: Lin(-1)})):
                continue
            c = l.subst({self.k: K - 1})
            if c not in self.lin:
                self.lin.append(c)
                ch = True
        for f, b in bk[0].st.bools.items():
            if f[0] == "pres" and b is False and f not in S.bools and plain(f[1]) is not None and f[2].coef(self.k) in (1, -1) \
                    and not mentions(f[2], lvs) and not loc.foreign(f[2]) and all(o.st.bools.get(f) is False for o in bk[1:]):
                x = (plain(f[1]), f[2])
                if x not in self.absent:
                    self.absent.append(x)
                    ch = True
        e, u = common_zero(S, bk, self.k, lvs, loc)
        u = u + guarded_zero(S, bk, self.k, lvs, loc, e, u)
        for x in e:
            if x not in self.each:
                self.each.append(x)
                ch = True
        for x in u:
            if x not in self.univ:
                self.univ.append(x)
                ch = True
        return ch


def common_zero(S, bk, k, lvs, loc):
    each, univ = [], []
    if not bk:
        return each, univ
    cand = []
    for p in bk[0].st.zs:
        if p in S.zs:
            continue
        if k not in p.syms() or mentions(p, lvs) or loc.foreign(p):
            continue
        cand.append(p)
    for p in cand:
        if all(o.st.decide(zf(p)) is True for o in bk[1:]):
            a = single_el(p)
            if a is not None:
                each.append((a[1], a[2]))
            else:
                univ.append(p)
    return each, univ


def guarded_zero(S, bk, k, lvs, loc, each, univ):
    """facts that hold in every completed iteration whose key is present"""
    out = []
    known = [el(P, i) for P, i in each] + list(univ)
    for o in bk:
        for f, b in o.st.bools.items():
            if f[0] != "pres" or b is not True or f in S.bools or f[2].coef(k) not in (1, -1) or mentions(f, lvs) or loc.foreign(f):
                continue
            for p in o.st.zs:
                if p in S.zs or k not in p.syms() or mentions(p, lvs) or loc.foreign(p) or p in known:
                    continue
                if all(x.st.bools.get(f) is False or x.st.decide(zf(p)) is True for x in bk):
                    q = Poly.atom(("ite", f, p, ZERO))
                    if q not in out:
                        out.append(q)
        # p may be zero for different reasons on different paths: try the differences read
        for f, b in o.st.bools.items():
            if f[0] != "pres" or b is not True or f in S.bools or f[2].coef(k) not in (1, -1) or mentions(f, lvs) or loc.foreign(f):
                continue
            names = [P for P in o.st.sup if P not in o.st.defs]
            me = plain(f[1])
            for P in names:
                if me is None or P == me:
                    continue
                p = el(me, f[2]) - el(P, f[2])
                if p in known:
                    continue
                q = Poly.atom(("ite", f, p, ZERO))
                if q in out:
                    continue
                if all(x.st.bools.get(f) is False or not x.st.simp(p).t for x in bk):
                    out.append(q)
    return out


def single_el(p):
    if len(p.t) == 1:
        (b, fs), kk = next(iter(p.t.items()))
        if not b and len(fs) == 1 and fs[0][0][0] == "el" and fs[0][1] == Lin(1):
            return fs[0][0]
    return None


def merge_ranges(each, k, lo, hi):
    """zero facts idx(j) for lo<=j<hi -> contiguous ranges (P, from, to)"""
    out = []
    groups = {}
    for P, idx in each:
        s = idx.coef(k)
        if s == 0 or any(isinstance(x, tuple) and k in ring._lsyms(Lin.sym(x)) for x in idx.syms()):
            continue
        rest = idx - Lin.sym(k) * s
        b = Lin(0, rest.t)
        groups.setdefault((P, s, b), set()).add(rest.c)
    for (P, s, b), offs in groups.items():
        m = abs(s)
        offs = sorted(offs)
        # maximal runs of m consecutive offsets
        for i in range(len(offs) - m + 1):
            if offs[i + m - 1] - offs[i] == m - 1:
                amin = b + offs[i]
                if s > 0:
                    out.append((P, amin + lo * m, amin + hi * m))
                else:
                    out.append((P, amin - (hi - 1) * m, amin - lo * m + m))
    return out


# ------------------------------------------------------------------ recurrences
def joined(bk, lf, S):
    """one update expression valid on every back edge, or None"""
    vals = [sget(o.st, lf) for o in bk]
    if any(not isinstance(v, Poly) for v in vals):
        return None
    if all(v == vals[0] for v in vals):
        return vals[0]
    # prefer the expression of the back edge with the fewest zero facts
    order = sorted(range(len(bk)), key=lambda i: (len(bk[i].st.zs), len(bk[i].st.lin)))
    for j in order:
        okk = True
        for i in range(len(bk)):
            if i == j:
                continue
            try:
                if bk[i].st.simp(vals[j] - vals[i]).t:
                    okk = False
                    break
            except Split:
                okk = False
                break
        if okk:
            return vals[j]
    # case expression on the path conditions
    n0 = len(S.path)
    groups = []
    for i, v in enumerate(vals):
        for g in groups:
            if g[0] == v:
                g[1].append(i)
                break
        else:
            groups.append((v, [i]))
    if len(groups) > 6:
        return None
    groups.sort(key=lambda g: len(g[1]))
    res = groups[-1][0]
    for v, ix in groups[:-1]:
        c = FALSE
        for i in ix:
            cc = TRUE
            for f in bk[i].st.path[n0:]:
                cc = fand(cc, f)
            c = for_(c, cc)
        if c == TRUE or c == FALSE:
            return None
        if has_b(c):
            return None
        res = res + Poly.atom(("ite", c, ONE, ZERO)) * (v - groups[-1][0])
    return res


def has_b(c):
    return False


def solve(I, st0, S, bk, mod, closed, lv, k, loc):
    """closed forms for ring and content leaves"""
    out = {}
    if not bk:
        return out
    K = Lin.sym(k)
    lvs = lvset(lv)
    pend = [lf for lf in mod if lf not in closed and mod[lf] in ("ring", "content")]
    upd = {}
    for lf in pend:
        u = joined(bk, lf, S)
        if u is not None and not loc.foreign(u):
            upd[lf] = u
    sol = {}    # lv placeholder -> (leaf, closed Poly)
    progress = True
    while progress:
        progress = False
        for lf in pend:
            if lf in out or lf not in upd:
                continue
            p = upd[lf]
            if mod[lf] == "ring":
                c = solve_ring(I, st0, S, lf, p, lv, lvs, out, mod, k)
            else:
                c = solve_content(I, st0, S, lf, p, lv, lvs, out, mod, k)
            if c is not None:
                out[lf] = c
                progress = True
    for lf, kind in mod.items():
        if kind == "trace" and lf not in closed:
            c = solve_trace(I, st0, S, bk, lf, lv, lvs, k)
            if c is not None:
                out[lf] = c
    return out


def subst_known(p, lv, out, mod, st):
    """replace already solved placeholders by their closed forms"""
    m = {}
    cm = {}
    for lf, c in out.items():
        if mod[lf] == "ring":
            m[lv[lf]] = c
        elif mod[lf] == "content":
            cm[lv[lf]] = c
    if not m and not cm:
        return p

    def f(a):
        if a in m:
            return m[a]
        return None
    p = p.map_atoms(f)
    if cm and any(a[0] in ("el", "pres") and a[1] in cm for a in p.atoms()):
        return None
    return p


def solve_ring(I, st0, S, lf, p, lv, lvs, out, mod, k):
    K = Lin.sym(k)
    p = subst_known(p, lv, out, mod, S)
    if p is None:
        return None
    A = lv[lf]
    g, h = ZERO, ZERO
    for (b, fs), c in p.t.items():
        t = Poly({(b, fs): c})
        d = dict(fs)
        if A in d:
            if d[A] != Lin(1) or b:
                return None
            rest = tuple((a, e) for a, e in fs if a != A)
            g = g + Poly({((), rest): c})
        else:
            h = h + t
    if mentions(h, lvs) or mentions(g, lvs):
        return None
    v0 = sget(st0, lf)
    return geometric(v0, g, h, k)


def geometric(v0, g, h, k):
    """v(k) for v(j+1) = g v(j) + h(j)"""
    K = Lin.sym(k)
    if not g.t:
        return None
    if k in g.syms():
        return None
    j = fresh("j")
    J = Lin.sym(j)
    if g == ONE:
        return v0 + accumulate(h, k)
    if len(g.t) != 1:
        return None
    (b, fs), c = next(iter(g.t.items()))
    if b or c != 1 or any(not e.isconst() for _, e in fs):
        return None
    gk = ring.ppow(g, K)
    if not h.t:
        return v0 * gk
    w = ring.ppow(g, K - 1 - J)
    hj = h.subst({k: J})
    return v0 * gk + sum_range(j, Lin(0), K, hj * w)


def accumulate(h, k):
    """sum_{j<k} h(j)"""
    K = Lin.sym(k)
    j = fresh("j")
    out = ZERO
    for (b, fs), c in h.t.items():
        t = Poly({(b, fs): c})
        if k not in t.syms():
            out = out + t * emb(K)
        else:
            out = out + sum_range(j, Lin(0), K, t.subst({k: Lin.sym(j)}))
    return out


def split_full(p, P):
    """p = G * full(P) + h, G a sum of products of invariant atoms and X powers"""
    G, h = ZERO, ZERO
    for (b, fs), c in p.t.items():
        hit = [a for a, e in fs if a[0] == "el" and a[1] == P]
        if len(b) == 1 and len(hit) == 1 and b[0][1] is None and hit[0][2] == Lin.sym(b[0][0]):
            v = b[0][0]
            rest = []
            okk = True
            for a, e in fs:
                if a == hit[0]:
                    if e != Lin(1):
                        okk = False
                    continue
                if a == X:
                    e = e - Lin.sym(v)
                    if v in e.syms():
                        okk = False
                    if e != Lin(0):
                        rest.append((a, e))
                    continue
                u = set()
                ring._asyms(a, u)
                if v in u or v in e.syms():
                    okk = False
                rest.append((a, e))
            if okk:
                G = G + Poly({((), tuple(rest)): c})
                continue
        h = h + Poly({(b, fs): c})
    return G, h


def solve_content(I, st0, S, lf, p, lv, lvs, out, mod, k):
    K = Lin.sym(k)
    P = lv[lf]
    v0 = sget(st0, lf)
    p = subst_known(p, lv, out, mod, S)
    if p is None:
        return None
    G, h = split_full(p, P)
    others = lvs - {P}
    if mentions(G, lvs) or mentions(h, others):
        return None
    if not mentions(h, {P}):
        return geometric(v0, G, h, k)
    if G != ONE:
        return None
    # pointwise update: h touches exponents e(k) of slope +-1 and reads only
    # positions not written before
    ex = None
    for (b, fs), c in h.t.items():
        if b:
            return None
        d = dict(fs)
        e = d.get(X, Lin(0))
        if ex is None:
            ex = e
        elif ex != e:
            return None
    s = ex.coef(k)
    if s not in (1, -1):
        return None
    okk = [True]
    orig = plain(v0)

    def f(a):
        if a[0] == "el" and a[1] == P:
            d = a[2] - ex
            if not d.isconst() or d.c * s < 0:
                okk[0] = False
                return None
            if orig is not None:
                return el(orig, a[2])
            if not v0.t:
                return ZERO
            try:
                return st0.coef(v0, a[2])
            except Split:
                okk[0] = False
                return None
        if a[0] == "pres" and a[1] == P:
            okk[0] = False
        return None
    h2 = h.map_atoms(f)
    if not okk[0]:
        return None
    return v0 + accumulate(h2, k)


def solve_trace(I, st0, S, bk, lf, lv, lvs, k):
    alts = []
    n0 = len(S.path)
    for o in bk:
        t = sget(o.st, lf)
        if not isinstance(t, Trace) or not t.ev or t.ev[0] != lv[lf]:
            return None
        ev = t.ev[1:]
        path = o.st.path[n0:]
        if mentions(ev, lvs) or mentions(path, lvs):
            return None
        alts.append((path, ev, o.st.zs[len(S.zs):], o.st.nz[len(S.nz):]))
    t0 = sget(st0, lf)
    j = fresh("j")
    m = {k: Lin.sym(j)}
    alts = tuple(tuple(sub_any(x, m) for x in a) for a in alts)
    return Trace(t0.ev + (("rep", j, Lin(0), Lin.sym(k), alts),))


# ------------------------------------------------------------------ open leaves
def open_leaves(I, st0, S, bk, mod, closed, lv, k, open_, facts, tag):
    """header partitions for cells without a recurrence:
       assigned-every-iteration, last-match, conserved, or unknown"""
    K = Lin.sym(k)
    lvs = lvset(lv)
    loc = LocalSyms(S, k)
    assign, match, rest = [], [], []
    part = None
    for lf in open_:
        vals = [raw(o.st, lf) for o in bk]
        me = raw(S, lf)
        if any(v is None for v in vals):
            rest.append(lf)
            continue
        unch = [v == me for v in vals]
        indep = [not mentions(v, lvs) and not loc.foreign(v) for v in vals]
        if all(indep):
            if all(v == vals[0] for v in vals):
                assign.append(lf)
            else:
                match.append(lf)
        elif all(u or i for u, i in zip(unch, indep)):
            match.append(lf)
        else:
            rest.append(lf)
    plans = []
    extra_rest, prep_rest = unknown_leaves(I, st0, S, bk, mod, closed, lv, k, rest, facts, tag)

    def at(v, x):
        return sub_any(v, {k: x})
    if not assign and not match:
        return [(extra_rest, prep_rest)]
    n0 = len(S.path)
    # iteration 0
    ex0 = dict(extra_rest)
    for lf in assign + match:
        ex0[lf] = raw(st0, lf)

    if not match:
        def prep0(h):
            h.add_lin(-K)
            return prep_rest(h) if h.feasible() else []

        ex1 = dict(extra_rest)
        for lf in assign:
            ex1[lf] = at(raw(bk[0].st, lf), K - 1)

        def prep1(h):
            h.add_lin(K - 1)
            return prep_rest(h) if h.feasible() else []
        return [(ex0, prep0), (ex1, prep1)]

    U = [o for o in bk if all(raw(o.st, lf) == raw(S, lf) for lf in match)]
    A = [o for o in bk if o not in U]
    for o in A:
        if any(raw(o.st, lf) != raw(S, lf) and mentions(raw(o.st, lf), lvs) for lf in match):
            raise GiveUp("loop-carried choice")
        if any(raw(o.st, lf) == raw(S, lf) for lf in match) and len(match) > 1:
            raise GiveUp("independent loop-carried choices")
    e, u = common_zero(S, U, k, lvs, loc)
    blur = any(possible(o.st, facts, e, u, k) for o in A)
    for o in A:
        blur = blur or any(mentions(f, lvs) for f in o.st.path[n0:] + tuple(l for l in o.st.lin if l not in S.lin))
    if blur:
        def vague(prep):
            def p(h):
                h.approx = h.approx + (VAGUE,)
                return prep(h)
            return p
        prep_rest = vague(prep_rest)

    def prep_never(h):
        facts.apply_each(h, Lin(0), K, e, u)
        if assign:
            h.add_lin(-K)
        return prep_rest(h) if h.feasible() else []
    plans.append((ex0, prep_never))
    if assign:
        raise GiveUp("mixed loop-carried assignments")
    for o in A:
        m = fresh("m")
        M = Lin.sym(m)
        ex = dict(extra_rest)
        for lf in match:
            ex[lf] = at(raw(o.st, lf), M)

        def prep_m(h, o=o, M=M):
            h.add_lin(M)
            h.add_lin(K - 1 - M)
            if not h.feasible():
                return []
            for l in o.st.lin:
                if l not in S.lin and not mentions(l, lvs):
                    h.add_lin(at(l, M))
            hs = [h]
            for f in o.st.path[n0:]:
                if mentions(f, lvs):
                    continue
                nx = []
                for x in hs:
                    nx += x.assume(at(f, M))
                hs = nx
            out = []
            for x in hs:
                facts.apply_each(x, M + 1, K, e, u)
                if x.feasible():
                    out += prep_rest(x)
            return out
        plans.append((ex, prep_m))
    return plans


def raw(st, lf):
    return sget(st, lf)


def unknown_leaves(I, st0, S, bk, mod, closed, lv, k, rest, facts, tag):
    """arbitrary values, kept relational where a linear invariant is inductive"""
    extra = {}
    if not rest:
        return extra, lambda h: [h]
    Stats.loops[tag if isinstance(tag, str) else str(tag)] = "unsolved cells"
    contents = []
    news = {}
    lins = []
    cons = conserve(I, st0, S, bk, mod, closed, lv, k, rest)
    for lf in rest:
        kind = mod[lf]
        if kind == "int":
            s = fresh("u")
            extra[lf] = Lin.sym(s)
            news[lf] = s
        elif kind == "ring":
            extra[lf] = Poly.atom(("top", fresh("u")))
        elif kind == "content":
            P = fresh("U")
            extra[lf] = full(P)
            contents.append((lf, P))
        elif kind == "bool":
            extra[lf] = ("atom", "unknown", fresh("u"))
        else:
            extra[lf] = Top("loop-carried")
    why = "loop %s: no closed form for %s" % (tag, [show_leaf(l) for l in rest if l not in cons])
    pm = dict(contents)
    ints = int_invariants(st0, S, bk, mod, closed, lv, k, news)

    def prep(h):
        for lf, s in news.items():
            if intty(h, lf).startswith("u"):
                h.add_lin(Lin.sym(s))
        for l in ints:
            h.add_lin(l)
        for lf, P in contents:
            v = get(h.store[lf[0]], lf[1:-1])
            h.sup[P] = v.n if isinstance(v, Seq) else None
        for lf, fn in cons.items():
            if lf in pm:
                h.defs[pm[lf]] = fn({x: full(p) for x, p in pm.items()})
        if any(lf not in cons for lf in rest):
            h.approx = h.approx + (why,)
        return [h] if h.feasible() else []
    return extra, prep


def show_leaf(l):
    return "%s%s" % (l[0], "".join("." + "".join(map(str, s)) for s in l[1:]))


def int_invariants(st0, S, bk, mod, closed, lv, k, news):
    """Houdini over simple templates for unsolved integers"""
    if not news:
        return []
    K = Lin.sym(k)
    terms = [Lin(0)]
    for c, v in st0.store.items():
        for n in lens(v):
            if n not in terms:
                terms.append(n)
    cand = []
    cur = {lf: Lin.sym(lv[lf]) for lf in news}
    ent = {lf: sget(st0, lf) for lf in news}
    back = [{lf: sget(o.st, lf) for lf in news} for o in bk]
    if any(not isinstance(x, Lin) for b in back for x in b.values()):
        return []
    for lf in news:
        s = Lin.sym(lv[lf])
        tt = terms + [ent[lf]] + [Lin.sym(lv[x]) for x in news if x != lf]
        for t in tt:
            for c in (0, 1, -1):
                cand.append(s - t + c)
                cand.append(t - s + c)
    m0 = {lv[lf]: ent[lf] for lf in news}
    cand = [c for c in dict.fromkeys(cand) if st0.entails(c.subst(m0))]
    for _ in range(6):
        keep = []
        for c in cand:
            okk = True
            for o, b in zip(bk, back):
                x = o.st.copy()
                for d in cand:
                    x.add_lin(d)
                if not x.entails(c.subst({lv[lf]: b[lf] for lf in news})):
                    okk = False
                    break
            if okk:
                keep.append(c)
        if len(keep) == len(cand):
            break
        cand = keep
    m = {lv[lf]: Lin.sym(s) for lf, s in news.items()}
    return [c.subst(m) for c in cand]


def lens(v):
    if isinstance(v, Seq):
        yield v.n
    elif isinstance(v, Agg):
        for x in v.fs:
            yield from lens(x)


def conserve(I, st0, S, bk, mod, closed, lv, k, rest):
    """contents R with R' - R = -B (Q' - Q) for another carried content Q and an
    unmodified content B: R + B Q is conserved"""
    out = {}
    cs = [lf for lf in rest if mod[lf] == "content"]
    if len(cs) < 2:
        return out
    Bs = []
    for c, v in S.store.items():
        for w in contents_in(v):
            P = plain(w)
            if P is not None and P not in lvset(lv) and w not in Bs:
                Bs.append(w)
            elif w.t and not mentions(w, lvset(lv)) and w not in Bs:
                Bs.append(w)
    for R in cs:
        for Q in cs:
            if R == Q or Q in out or R in out:
                continue
            for B in Bs:
                okk = True
                for o in bk:
                    r1, q1 = sget(o.st, R), sget(o.st, Q)
                    if not isinstance(r1, Poly) or not isinstance(q1, Poly):
                        okk = False
                        break
                    d = (r1 - full(lv[R])) + B * (q1 - full(lv[Q]))
                    try:
                        z = o.st.norm(d)
                    except (Split, GiveUp):
                        okk = False
                        break
                    if z.t:
                        okk = False
                        break
                if okk:
                    c0 = sget(st0, R) + B * sget(st0, Q)
                    out[R] = (lambda m, c0=c0, B=B, Q=Q: c0 - B * m[Q])
                    break
    return out


def all_parts(st, fn):
    """fn holds on every partition of st"""
    from .decide import split_run
    try:
        return all(v for _, v in split_run(st.copy(), lambda x: True if not x.feasible() else fn(x)))
    except (GiveUp, RecursionError):
        return False


def leading_terms(I, st0, base0, S, outs, bk, body, mod, closed, lv, k, open_, facts, tag):
    """a loop that rewrites contents around a falling degree (division): an int d, a
    content R that is zero above d, a scalar equal to R's coefficient at d, a content Q
    still zero below d + t, and R + B Q conserved.  Every candidate is kept only if it
    holds on entry and every back edge re-establishes it."""
    ints = [lf for lf in open_ if mod[lf] == "int"]
    rings = [lf for lf in open_ if mod[lf] == "ring"]
    conts = [lf for lf in open_ if mod[lf] == "content"]
    if not conts or not ints or not rings or any(mod[lf] not in ("int", "ring", "content") for lf in open_):
        return None
    val0 = {lf: sget(st0, lf) for lf in open_}
    if any(not isinstance(val0[d], Lin) for d in ints) or any(not isinstance(val0[c], Poly) for c in rings + conts):
        return None
    ts = []
    for v in st0.store.values():
        if isinstance(v, IntV) and not v.l.isconst() and -v.l not in ts:
            ts.append(-v.l)
    ts = [Lin(0)] + ts[:8]
    cands = []
    for d in ints:
        for R in conts:
            cands.append(("top", R, d))
            cands.append(("nz", R, d))
            for c in rings:
                cands.append(("at", c, R, d))
            for t in ts:
                cands.append(("low", R, d, t + 1))

    def holds(st, cd, val):
        def f(x):
            R = val[cd[2] if cd[0] == "at" else cd[1]]
            d = val[cd[3] if cd[0] == "at" else cd[2]]
            if cd[0] == "top":
                return not x.norm(x.window(R, d + 1, None)).t
            if cd[0] == "nz":
                return x.decide(zf(x.norm(x.coef(R, d)))) is False
            if cd[0] == "at":
                return not x.norm(x.coef(R, d) - val[cd[1]]).t
            hi = d + cd[3]
            g = ge(hi - 1)
            b = x.decide(g)
            if b is None:
                raise Split(g)
            return not b or not x.norm(x.window(R, Lin(0), hi)).t
        return all_parts(st, f)
    cands = [cd for cd in cands if holds(st0, cd, val0)]
    if not any(cd[0] == "top" for cd in cands):
        return None
    # conditions on the carried scalars that end the loop
    lvs = lvset(lv)
    n0 = len(S.path)
    guards = []
    sc = {lv[c] for c in rings} | {lv[d] for d in ints}
    for o in outs:
        if o.k != "back":
            for f in o.st.path[n0:]:
                if f[0] == "z" and mentions(f, {lv[c] for c in rings}) and not mentions(f, lvs - sc) and f not in guards:
                    guards.append(f)
    guards = guards[:2]

    def gsub(f, val):
        m = {lv[c]: val[c] for c in rings}
        return (f[0], f[1].map_atoms(lambda a: m.get(a)).subst({lv[d]: val[d] for d in ints}))

    def header(cs):
        val = {}
        for lf in conts:
            val[lf] = full(fresh("U"))
        for lf in ints:
            val[lf] = Lin.sym(fresh("u"))
        for cd in cs:
            if cd[0] == "at" and cd[1] not in val:
                val[cd[1]] = el(plain(val[cd[2]]), val[cd[3]])
        for lf in rings:
            if lf not in val:
                val[lf] = Poly.atom(("top", fresh("u")))
        return val

    def prep(cs, val, ivs, defs):
        def go(h):
            for lf in ints:
                if intty(h, lf).startswith("u"):
                    h.add_lin(val[lf])
            for l in ivs:
                h.add_lin(l.subst({lv[d]: val[d] for d in ints}))
            for lf in conts:
                v = get(h.store[lf[0]], lf[1:-1])
                h.sup[plain(val[lf])] = v.n if isinstance(v, Seq) else None
            for cd in cs:
                if cd[0] == "top":
                    h.add_zr(plain(val[cd[1]]), val[cd[2]] + 1, None)
                elif cd[0] == "nz":
                    h.add_nz(el(plain(val[cd[1]]), val[cd[2]]))
            hs = [h]
            for f in guards:
                hs = [y for x in hs for y in x.copy().assume(gsub(f, val))] + [y for x in hs for y in low(x.copy(), cs, val, f)]
            if not guards:
                hs = low(h, cs, val, None)
            out = []
            for x in hs:
                if defs:
                    x.late = dict(x.late)
                    x.late.update({plain(val[lf]): p(val) for lf, p in defs.items()})
                if x.feasible():
                    out.append(x)
            return out
        return go

    def low(x, cs, val, f):
        xs = x.assume(fnot(gsub(f, val))) if f is not None else [x]
        for y in xs:
            for cd in cs:
                if cd[0] == "low":
                    y.add_zr(plain(val[cd[1]]), None, val[cd[2]] + cd[3])
        return xs
    # linear facts about the degrees
    ivs = int_cands(st0, val0, ints, lv)
    fall = {}
    for rnd in range(8):
        val = header(cands)
        h = base0.copy()
        facts.apply(h, Lin(0), Lin.sym(k))
        cl = dict(closed)
        cl.update(val)
        H, _ = generalise(h, mod, cl)
        bad, badi = set(), set()
        fall = {d: True for d in ints}
        back = []
        for hh in prep(cands, val, ivs, {})(H):
            for o in body(hh):
                if o.k == "back" and o.st.feasible():
                    back.append(o)
        if DEBUG: print('round',rnd,len(back),[ (c[0],)+tuple(map(str,c[1:])) for c in cands], ivs)
        vals = []
        for o in back:
            v1 = {lf: sget(o.st, lf) for lf in open_}
            if any(type(v1[lf]) is not type(val[lf]) for lf in open_):
                return None
            vals.append(v1)
            for d in ints:
                deduce(o.st, val[d] - v1[d])
            sts = [o.st.copy()]
            for f in guards:
                sts = [y for x in sts for y in x.assume(fnot(gsub(f, v1))) if y.feasible()]
            for x in sts:
                for d in ints:
                    deduce(x, val[d] - v1[d] - 1)
            for cd in cands:
                if cd in bad:
                    continue
                ok = all(holds(x, cd, v1) for x in sts) if cd[0] == "low" else holds(o.st, cd, v1)
                if not ok:
                    bad.add(cd)
                    if DEBUG: print('  drop', cd, {k: str(v)[:200] for k,v in v1.items()}, o.st.zr, o.st.defs)
            for l in ivs:
                if l not in badi and not o.st.entails(l.subst({lv[d]: v1[d] for d in ints})):
                    badi.add(l)
            for d in ints:
                if DEBUG and not all(all_parts(x, lambda y, d=d: y.entails(val[d] - v1[d] - 1)) for x in sts): print('NOFALL', val[d], v1[d], o.st.zr, o.st.zs, o.st.nz, o.st.defs, sts[0].nz)
                fall[d] = fall[d] and all(all_parts(x, lambda y, d=d: y.entails(val[d] - v1[d] - 1)) for x in sts)
        if not bad and not badi:
            break
        cands = [c for c in cands if c not in bad]
        ivs = [l for l in ivs if l not in badi]
        if not any(cd[0] == "top" for cd in cands):
            return None
    else:
        return None
    Stats.ranks[tag] = Stats.ranks.get(tag, True) and any(fall.values())
    Stats.loops[tag if isinstance(tag, str) else str(tag)] = "leading-term invariant: %d facts, %s" % (len(cands) + len(ivs), "falling degree" if any(fall.values()) else "no rank")
    # conserved combination
    defs = {}
    Bs = []
    for c, v in H.store.items():
        for w in contents_in(v):
            if w.t and w not in Bs and not any(mentions(w, {plain(val[lf])}) for lf in conts):
                Bs.append(w)
    for R in conts:
        for Q in conts:
            if R == Q or R in defs or Q in defs:
                continue
            for B in Bs:
                if all(all_parts(o.st, lambda x: not x.norm((v1[R] - val[R]) + B * (v1[Q] - val[Q])).t) for o, v1 in zip(back, vals)):
                    c0 = val0[R] + B * val0[Q]
                    defs[R] = lambda m, c0=c0, B=B, Q=Q: c0 - B * m[Q]
                    break
    why = "loop %s: invariant only for %s" % (tag, [show_leaf(l) for l in open_])
    val = header(cands)

    def last(h):
        out = []
        for x in prep(cands, val, ivs, defs)(h):
            x.approx = x.approx + (why,)
            out.append(x)
        return out
    return [(val, last)]


def deduce(st, l):
    """add l >= 0 when its negation contradicts what is known"""
    from .oblig import contradictory
    if st.entails(l):
        return True
    for y in (-l - 1, None):
        x = st.copy()
        if y is not None:
            x.add_lin(y)
            x.add_lin(-y)
            for v in l.syms():
                if isinstance(v, str) and l.coef(v) in (1, -1) and v[:1] in "dkmu":
                    x.subst_ints({v: Lin.sym(v) - (l + 1) * l.coef(v)})
                    break
        else:
            x.add_lin(-l - 2)
        if x.feasible() and not contradictory(x):
            return False
    st.add_lin(l)
    return True


def int_cands(st0, val0, ints, lv):
    terms = [Lin(0)]
    for v in st0.store.values():
        for n in lens(v):
            if n not in terms:
                terms.append(n)
        if isinstance(v, IntV) and v.l not in terms and not v.l.isconst():
            terms.append(v.l)
    out = []
    m0 = {lv[d]: val0[d] for d in ints}
    for d in ints:
        s = Lin.sym(lv[d])
        for t in terms[:14] + [val0[d]] + [Lin.sym(lv[x]) for x in ints if x != d]:
            for c in (0, -1):
                out += [s - t + c, t - s + c]
    return [c for c in dict.fromkeys(out) if not c.isconst() and st0.entails(c.subst(m0))]


def contents_in(v):
    if isinstance(v, (Seq, MapV)):
        yield v.p
    elif isinstance(v, Agg):
        for x in v.fs:
            yield from contents_in(x)
