"""Loads the program facts and answers structural questions about them."""
import json


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d["fns"]
        self.impls = d["impls"]
        self.traits = d["traits"]
        self.adts = d["adts"]
        self.adt_by_path = {a["path"]: a for a in self.adts.values()}
        self.crate = d.get("crate")
        self._cfg = {}
        self.by_path = {}
        for i, f in self.fns.items():
            self.by_path.setdefault(f["path"], i)
        self.trait_default = {}
        for t in (self.traits.values() if isinstance(self.traits, dict) else self.traits):
            for it in t["items"]:
                if it[2]:
                    self.trait_default[(t["path"], it[0])] = it[1]

    def cfg(self, fid):
        c = self._cfg.get(fid)
        if c is None:
            c = Cfg(self.fns[fid]["body"])
            self._cfg[fid] = c
        return c

    def where(self, fid, ln=None):
        f = self.fns[fid]
        return "%s (%s%s)" % (f["path"], f["span"], "" if ln is None else "; line %s" % ln)

    def find_impl(self, trait, self_ty, targs=None):
        """-> (impl, subst) matching trait for self_ty (+ remaining trait args)"""
        for did, im in self.impls.items():
            if im["trait"] != trait:
                continue
            s = {}
            if not unify(im["self"], self_ty, s):
                continue
            if targs is not None:
                ok = True
                for p, t in zip(im["targs"][1:], targs):
                    if not unify(p, t, s):
                        ok = False
                        break
                if not ok:
                    continue
            return im, s
        return None


def unify(p, t, s):
    if t is None:
        return True
    if p.get("k") == "param":
        q = s.get(p["n"])
        if q is None:
            s[p["n"]] = t
            return True
        return tyeq(q, t)
    if p.get("k") != t.get("k"):
        return False
    k = p["k"]
    if k == "adt":
        if p["p"] != t["p"] or len(p["a"]) != len(t["a"]):
            return False
        return all(unify(x, y, s) for x, y in zip(p["a"], t["a"]))
    if k == "ref":
        return unify(p["t"], t["t"], s)
    if k in ("int", "float"):
        return p["n"] == t["n"]
    if k in ("slice", "array"):
        return unify(p["t"], t["t"], s)
    if k == "tuple":
        return len(p["a"]) == len(t["a"]) and all(unify(x, y, s) for x, y in zip(p["a"], t["a"]))
    return True


def tyeq(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def ty_subst(t, s):
    if not isinstance(t, dict):
        return t
    if t.get("k") == "param":
        return s.get(t["n"], t)
    out = None
    for key in ("t", "a", "n"):
        v = t.get(key)
        if isinstance(v, dict):
            n = ty_subst(v, s)
        elif isinstance(v, list):
            n = [ty_subst(x, s) for x in v]
        else:
            continue
        if n != v:
            if out is None:
                out = dict(t)
            out[key] = n
    return out or t


class Cfg:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [succs(b["t"]) for b in bl]
        self.pred = [[] for _ in range(n)]
        reach = []
        seen = set()
        # iterative dfs with postorder
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        post = []
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                post.append(u)
                st.pop()
        for u in seen:
            for v in self.succ[u]:
                self.pred[v].append(u)
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = p, x
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for u in seen:
            for h in self.succ[u]:
                if h in seen and dom(h, u):
                    body_ = self.loops.setdefault(h, {h})
                    work = [u]
                    while work:
                        x = work.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        work += self.pred[x]
        self.live = liveness(body, self.succ, seen)


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        r = [x[1] for x in t["v"]]
        if t["o"] is not None:
            r.append(t["o"])
        return r
    if k in ("drop", "assert"):
        return [t["t"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []


def _ops(o, u):
    if o is None:
        return
    if o.get("o") in ("copy", "move"):
        _place(o["p"], u)


def _place(p, u):
    u.add(p["l"])
    for e in p["p"]:
        if e["k"] == "index":
            u.add(e["l"])


def rv_uses(r, u):
    for k in ("a", "b"):
        v = r.get(k)
        if isinstance(v, dict) and "o" in v:
            _ops(v, u)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "o" in x:
                    _ops(x, u)
    if "p" in r and isinstance(r["p"], dict):
        _place(r["p"], u)


def liveness(body, succ, seen):
    bl = body["blocks"]
    use, df = {}, {}
    for i in seen:
        u, d = set(), set()
        for s in bl[i]["s"]:
            x = set()
            rv_uses(s["r"], x)
            if s["p"]["p"]:
                _place(s["p"], x)
            u |= x - d
            if not s["p"]["p"]:
                d.add(s["p"]["l"])
        t = bl[i]["t"]
        x = set()
        if t["k"] == "switch":
            _ops(t["d"], x)
        elif t["k"] == "call":
            _ops(t["f"], x)
            for a in t["a"]:
                _ops(a, x)
            if t["d"]["p"]:
                _place(t["d"], x)
        elif t["k"] == "assert":
            _ops(t["c"], x)
        elif t["k"] == "return":
            x.add(0)
        u |= x - d
        if t["k"] == "call" and not t["d"]["p"]:
            d.add(t["d"]["l"])
        use[i], df[i] = u, d
    live = {i: set() for i in seen}
    ch = True
    while ch:
        ch = False
        for i in seen:
            o = set()
            for s in succ[i]:
                o |= live.get(s, set())
            n = use[i] | (o - df[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return live
