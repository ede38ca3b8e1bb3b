"""Gated value-graph construction over the crate's MIR.

Every function body is translated into a value graph: joins become gating
(if-then-else) nodes, loops become closed-form recurrences (or canonical fold
nodes), calls are replaced by a callee summary (contract) or inlined.  There is
no enumeration of paths and no solver: the graph is built in one pass over the
CFG, structured by post-dominators and natural loops.
"""
import json
import sys
import itertools
from terms import *
import terms as T
from values import *
import values as VV
from loops import LoopMixin

sys.setrecursionlimit(200000)


class Diverge(Exception):
    pass


def unbox(body):
    """`y = transmute((copy *b).0)` of elaborated Box dereferences is the address of the box's contents"""
    for bl in body["blocks"]:
        ss = bl["s"] if bl else []
        for n, st in enumerate(ss):
            if st[0] != "=" or st[2][0] != "cast" or st[2][1] != "BoxDerefTransmute":
                continue
            o = st[2][2].get("copy") or st[2][2].get("move")
            if o is None or len(o["p"]) < 1 or o["p"][-1][0] != "field":
                continue
            src = {"l": o["l"], "p": o["p"][:-1], "ty": o["ty"]}
            if not src["p"]:
                for k in range(n - 1, -1, -1):
                    if ss[k][0] == "=" and ss[k][1]["l"] == o["l"] and not ss[k][1]["p"]:
                        if ss[k][2][0] == "use" and "copy" in ss[k][2][1]:
                            src = ss[k][2][1]["copy"]
                        break
            ss[n] = [st[0], st[1], ["ref", src, True]] + st[3:]


class Program:
    def __init__(self, path):
        d = path if isinstance(path, dict) else json.load(open(path))
        self.types = d["types"]
        self.adts = d["adts"]
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.tyix = {}
        for i, t in enumerate(self.types):
            self.tyix.setdefault(t["s"], i)
        self._cfg = {}
        for b in d["bodies"]:
            unbox(b)

    def ty(self, i):
        return self.types[i]

    def cfg(self, body):
        k = id(body)
        if k not in self._cfg:
            self._cfg[k] = Cfg(body)
        return self._cfg[k]


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class Cfg:
    def __init__(self, body):
        self.b = body
        bl = body["blocks"]
        n = len(bl)
        self.succ = {i: [s for s in succs(bl[i]["t"]) if bl[s] is not None] if bl[i] else [] for i in range(n)}
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(self.succ[x])
        self.reach = reach
        # blocks which can reach a return
        pred = {i: [] for i in range(n)}
        for x in reach:
            for s in self.succ[x]:
                pred[s].append(x)
        self.pred = pred
        rets = [i for i in reach if bl[i]["t"][0] == "return"]
        live = set()
        st = list(rets)
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(p for p in pred[x] if p in reach)
        self.live = live
        # post-dominators on live part with virtual exit 'ret'
        self.ipdom = self._ipdoms(live, rets)
        self.loops = self._loops(reach, pred)
        self.locuse = self._locuse()

    def _ipdoms(self, live, rets):
        nodes = set(live) | {"ret"}
        pd = {x: set(nodes) for x in nodes}
        pd["ret"] = {"ret"}
        ch = True
        order = sorted(live, reverse=True)
        while ch:
            ch = False
            for x in order:
                ss = ["ret"] if x in rets else [s for s in self.succ[x] if s in live]
                new = set(nodes)
                for s in ss:
                    new &= pd[s]
                if not ss:
                    new = set()
                new = new | {x}
                if new != pd[x]:
                    pd[x] = new
                    ch = True
        ip = {}
        for x in live:
            c = pd[x] - {x}
            # immediate: the one that is post-dominated by all others
            best = None
            for y in c:
                if len(pd[y]) == len(c):
                    best = y
            ip[x] = best
        self.pd = pd
        return ip

    def _loops(self, reach, pred):
        dom = {x: set(reach) for x in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in sorted(reach):
                if x == 0:
                    continue
                ps = [p for p in pred[x] if p in reach]
                new = set(reach)
                for p in ps:
                    new &= dom[p]
                new |= {x}
                if new != dom[x]:
                    dom[x] = new
                    ch = True
        self.dom = dom
        loops = {}
        for x in reach:
            for s in self.succ[x]:
                if s in dom[x]:
                    body = loops.setdefault(s, {s})
                    st = [x]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(p for p in pred[y] if p in reach)
        return loops

    def _locuse(self):
        """local -> set of blocks mentioning it; plus per-block upward-exposed uses"""
        use = {}
        self.ue = {}
        self.defs = {}
        for i in self.reach:
            blk = self.b["blocks"][i]
            ue, df = set(), set()

            def useplace(p, isdef=False):
                l = p["l"]
                use.setdefault(l, set()).add(i)
                for e in p["p"]:
                    if e[0] == "index":
                        use.setdefault(e[1], set()).add(i)
                        if e[1] not in df:
                            ue.add(e[1])
                if isdef and not p["p"]:
                    df.add(l)
                elif l not in df:
                    ue.add(l)

            def useop(o):
                if isinstance(o, dict):
                    if "copy" in o:
                        useplace(o["copy"])
                    elif "move" in o:
                        useplace(o["move"])
                    elif "l" in o and "p" in o:
                        useplace(o)
                elif isinstance(o, list):
                    for y in o:
                        useop(y)
            for s in blk["s"]:
                if s[0] == "=":
                    useop(s[2])
                    useplace(s[1], True)
                else:
                    useop(s[1:])
            t = blk["t"]
            if t[0] == "call":
                if "ptr" in t[1]:
                    useop(t[1]["ptr"])
                useop(t[2])
                useplace(t[3], True)
            else:
                useop(t[1:])
                if t[0] == "return":
                    use.setdefault(0, set()).add(i)
                    if 0 not in df:
                        ue.add(0)
            self.ue[i] = ue
            self.defs[i] = df
        return use

    def dead_at(self, h):
        """locals used only inside loop h and defined before use in each iteration"""
        body = self.loops[h]
        # liveness restricted to loop
        livein = {x: set() for x in body}
        ch = True
        while ch:
            ch = False
            for x in body:
                out = set()
                for s in self.succ[x]:
                    if s in body:
                        out |= livein[s]
                new = self.ue[x] | (out - self.defs[x])
                if new != livein[x]:
                    livein[x] = new
                    ch = True
        r = set()
        for l, bs in self.locuse.items():
            if bs <= body and l not in livein[h] and l > self.b["argc"]:
                r.add(l)
        return r


class Frame:
    __slots__ = ("id", "body", "cfg", "active", "tys", "key")


class Interp(LoopMixin):
    def __init__(self, prog):
        self.P = prog
        self.cells = {}
        self.cellty = {}
        self.fid = itertools.count(1)
        self.cid = itertools.count(1)
        self.ev = itertools.count(1)
        self.contracts = {}
        self.pack256 = False
        self.used = set()
        self.models = {}
        self.sites = []
        self.depth = 0
        self.stack = []
        self.obl = []          # obligations: (kind, where, term)
        self.kstack = []       # enclosing loop indices
        self.kaps = []
        self.log = []
        self.loops_log = []
        self.level = 1
        self.refcells = {}
        self.notes = []
        self.calls = []        # (caller, callee) log
        self.visited = set()
        self.maxdepth = 60
        self.inline_deny = set()
        self.panics = []
        VV.EXPAND = self.expand
        VV.REFMERGE = self.refmerge

    # ---------------------------------------------------------------- helpers
    def where(self):
        return self.stack[-1] if self.stack else "?"

    def oblig(self, kind, ok, detail=""):
        self.obl.append((kind, self.where(), ok, detail))

    def new_cell(self, val, ty=None, tag="c"):
        c = (tag, next(self.cid))
        self.cells[c] = val
        self.cellty[c] = ty
        return c

    def refmerge(self, c, a, b):
        if not a.mut and not b.mut:
            return Ref(self.new_cell(vite(c, self.read(a), self.read(b))))
        return Top("merge of mutable references")

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.P.types[i]

    def int_info(self, i):
        t = self.ty(i)
        if t["k"] in ("uint", "int"):
            return t["k"] == "int", t["w"]
        return None

    def mkval(self, key, ty):
        """symbolic value of a type named by key (an Atom)"""
        t = self.ty(ty)
        k = t["k"]
        if k == "uint" or k == "int":
            return mkscalar(t["s"], key)
        if k == "bool":
            return bsym("bval", key)
        if k == "tuple":
            return Agg("tuple", [self.mkval(fld(key, i), e) for i, e in enumerate(t["elems"])])
        if k == "ref" or k == "ptr":
            ck = (key, ty)
            if ck not in self.refcells:
                c = ("r", next(self.cid))
                self.refcells[ck] = c
                self.cellty[c] = t["inner"]
            c = self.refcells[ck]
            if c not in self.cells:
                self.cells[c] = self.mkval(key, t["inner"])
            return Ref(c, (), bool(t.get("mut")))
        if k == "array":
            n = t["len"]
            return mk_arr(N(n) if n is not None else lenof(key), lambda i: self.mkval(idx(key, i), t["inner"]), t["inner"])
        if k == "slice":
            return self.symarr(key, t["inner"])
        if k == "adt":
            p = t["path"]
            a = t["args"]
            if p in ("std::vec::Vec",):
                return self.symarr(key, a[0])
            if p in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc"):
                return self.mkval(key, a[0])
            if p in ("num_bigint::BigUint", "num_bigint_dig::BigUint"):
                return mkscalar("big", key)
            if p == "num_bigint_dig::BigInt":
                return mkscalar("sbig", key)
            if p == "ndarray::ArrayBase":
                s = self.ty(a[0])
                dims = self.dims(a[1])
                ety = self.repr_elem(a[0])
                if "OwnedRepr" in s["s"]:
                    return self.symnd(key, dims, ety)
                ck = (key, ty)
                if ck not in self.refcells:
                    self.refcells[ck] = ("r", next(self.cid))
                c = self.refcells[ck]
                if c not in self.cells:
                    self.cells[c] = self.symnd(key, dims, ety)
                return Ref(c, (), "mut" in s["s"])
            return Ob(key, ty)
        if k == "param":
            return Ob(key, ty)
        return Ob(key, ty)

    def repr_elem(self, ty):
        s = self.ty(ty)
        for a in s.get("args", []):
            t = self.ty(a)
            if t["k"] in ("ref", "ptr"):
                return t["inner"]
            return a
        return None

    def dims(self, ty):
        s = self.ty(ty)["s"]
        import re
        m = re.search(r"\[usize; (\d)\]", s)
        return int(m.group(1)) if m else None

    def symarr(self, key, ety):
        n = lenof(key)
        v = fresh_ix(n)
        return Arr(n, v, self.mkval(idx(key, N(v)), ety), ety)

    def symnd(self, key, dims, ety):
        if dims == 1:
            return self.symarr(key, ety)
        n = lenof(key)
        v = fresh_ix(n)
        w = fresh_ix(None)
        m = atom("cols", key)
        cols = COLS_HOOK(key) if COLS_HOOK else N(m)
        RANGE[w] = ([ZERO], [cols - 1])
        k2 = idx(key, N(v))
        if dims == 2:
            return Arr(n, v, Arr(cols, w, self.mkval(idx(k2, N(w)), ety), ety))
        return Top("3d array")

    def expand(self, x):
        if not isinstance(x, Ob):
            return x
        h = EXPAND_HOOK(self, x) if EXPAND_HOOK else None
        if h is not None:
            return h
        t = self.ty(x.ty)
        if t["k"] == "tuple":
            return Agg("tuple", [self.mkval(fld(x.key, i), e) for i, e in enumerate(t["elems"])])
        if t["k"] != "adt":
            return x
        ad = self.P.adts.get(t["s"])
        if ad is None:
            ad = self.adt_std(t)
            if ad is None:
                return x
        if ad["kind"] == "struct" or len(ad["variants"]) == 1 and ad["kind"] != "enum":
            fs = ad["variants"][0]["fields"]
            return Agg(x.ty, [self.mkval(fld(x.key, f[0]), f[1]) for f in fs])
        if ad["kind"] == "enum":
            d = mkdisc(x.key, len(ad["variants"]))
            pl = {}
            for i, v in enumerate(ad["variants"]):
                pl[i] = tuple(self.mkval(fld(x.key, "%s.%s" % (v["name"], f[0])), f[1]) for f in v["fields"])
            return En(x.ty, d, pl)
        return x

    def adt_std(self, t):
        if t["path"] == "std::option::Option":
            return {"kind": "enum", "variants": [{"name": "None", "fields": []}, {"name": "Some", "fields": [["0", t["args"][0]]]}]}
        return None

    def adt_fields(self, ty):
        t = self.ty(ty)
        if t["k"] != "adt":
            return None
        ad = self.P.adts.get(t["s"])
        return [f[0] for f in ad["variants"][0]["fields"]] if ad else None

    def fieldname(self, ty, k):
        f = self.adt_fields(ty) if isinstance(ty, int) else None
        return f[k] if f and k < len(f) else str(k)

    def fieldindex(self, ty, name):
        f = self.adt_fields(ty) if isinstance(ty, int) else None
        return f.index(name) if f and name in f else None

    # ---------------------------------------------------------------- memory
    def get1(self, v, p):
        k = p[0]
        if isinstance(v, Top):
            return v
        if k == "f":
            if isinstance(v, Ob):
                e = self.expand(v)
                if isinstance(e, Ob):
                    return Top("field of opaque %s" % self.ty(v.ty)["s"][:60])
                v = e
            if isinstance(v, Agg):
                return v.f[p[1]]
            if isinstance(v, En):
                return Top("field of enum without downcast")
            if isinstance(v, (Arr, Lst, Cat, Poly, Bl, Ref)):
                return v      # transparent wrappers (Box, Vec internals, views)
            raise Unmodelled("field of %s" % type(v).__name__)
        if k == "vf":
            v = self.expand(v)
            if isinstance(v, En):
                f = v.pl.get(p[1])
                if f is None or len(f) <= p[2]:
                    return Top("absent variant")
                return f[p[2]]
            return Top("variant field of %s" % type(v).__name__)
        if isinstance(v, Ob):
            return Top("array access on opaque %s" % self.ty(v.ty)["s"][:60])
        if isinstance(v, RingC):
            v = self.ring_rows(v)
        if k == "i":
            return aget(v, p[1])
        if k == "sl":
            return aslice(v, p[1], p[2])
        if k == "col":
            a = to_arr(v)
            vv = fresh_ix(a.n)
            return Arr(a.n, vv, aget(aget(a, N(vv)), p[1]))
        if k == "csl":      # all rows, columns [lo, lo+n)
            a = to_arr(v)
            return Arr(a.n, a.v, aslice(a.body, p[1], p[2]))
        if k == "flat":
            # row-major flattening of a 2-d array with width w
            a = to_arr(v)
            w = p[1]
            n = a.n * w
            vv = fresh_ix(n)
            return Arr(n, vv, aget(aget(a, fdiv(N(vv), w)), mod(N(vv), w)))
        raise Unmodelled("path %s" % k)

    def ring_rows(self, v):
        ctx, r = v.ctx, v.r
        n = lenof(fld(ctx, "moduli_64"))
        m = COLS_HOOK(None)
        i = fresh_ix(n)
        j = fresh_ix(m)
        return Arr(n, i, Arr(m, j, N(atom("coef", ctx, r, N(i), N(j)))))

    def set1(self, v, p, new):
        k = p[0]
        if isinstance(v, Top):
            return v
        if k == "f":
            if isinstance(v, Ob):
                e = self.expand(v)
                if isinstance(e, Ob):
                    return Top("write to field of opaque")
                v = e
            if isinstance(v, Agg):
                f = list(v.f)
                f[p[1]] = new
                return Agg(v.ty, f)
            if isinstance(v, Uninit):
                return new
            if isinstance(v, (Arr, Lst, Cat, Poly, Bl, Ref)):
                return new
            raise Unmodelled("field write of %s" % type(v).__name__)
        if k == "vf":
            v = self.expand(v)
            if isinstance(v, En):
                pl = dict(v.pl)
                f = list(pl.get(p[1], ()))
                while len(f) <= p[2]:
                    f.append(UNINIT)
                f[p[2]] = new
                pl[p[1]] = tuple(f)
                return En(v.ty, v.d, pl)
            return Top("variant write")
        if isinstance(v, RingC):
            v = self.ring_rows(v)
        if k == "i":
            return aset(v, p[1], new)
        if k == "sl":
            return aset_range(v, p[1], p[2], new)
        if k == "col":
            a = to_arr(v)
            row = to_arr(a.body)
            return Arr(a.n, a.v, aset(row, p[1], aget(new, N(a.v))))
        if k == "csl":
            a = to_arr(v)
            return Arr(a.n, a.v, aset_range(a.body, p[1], p[2], aget(new, N(a.v))))
        if k == "flat":
            a = to_arr(v)
            w = p[1]
            row = to_arr(a.body)
            vv = fresh_ix(a.n)
            ww = fresh_ix(w)
            return Arr(a.n, vv, Arr(w, ww, aget(new, N(vv) * w + N(ww))))
        raise Unmodelled("path %s" % k)

    def read_path(self, v, path):
        for p in path:
            if p[0] == "*":
                if isinstance(v, Ref):
                    v = self.read(v)
                continue
            v = self.get1(v, p)
        return v

    def write_path(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if len(path) == 1:
            return self.set1(v, p, new)
        return self.set1(v, p, self.write_path(self.get1(v, p), path[1:], new))

    def read(self, r):
        if isinstance(r, Ref):
            if r.cell not in self.cells:
                return Top("dangling")
            return self.read_path(self.cells[r.cell], r.path)
        if isinstance(r, Top):
            return r
        return r     # transparent smart pointers

    def write(self, r, new):
        if isinstance(r, Ref):
            self.cells[r.cell] = self.write_path(self.cells.get(r.cell, UNINIT), r.path, new)
            return
        if isinstance(r, Top):
            self.notes.append("write through unknown reference: %s" % r.why)
            raise Unmodelled("write through unknown reference (%s)" % r.why)
        raise Unmodelled("write through %s" % type(r).__name__)

    def deref_all(self, r):
        """follow references to references; returns the innermost Ref or value"""
        while isinstance(r, Ref):
            v = self.read(r)
            if isinstance(v, Ref):
                r = v
                continue
            return r
        return r

    def rd(self, r):
        """value behind any number of references"""
        r = self.deref_all(r)
        return self.read(r) if isinstance(r, Ref) else r

    # ---------------------------------------------------------------- places
    def place(self, fr, pl):
        """-> Ref denoting the place (derefs resolved)"""
        cell, path = (fr.id, pl["l"]), []
        proj = pl["p"]
        i = 0
        while i < len(proj):
            e = proj[i]
            k = e[0]
            if k == "deref":
                v = self.read_path(self.cells.get(cell, UNINIT), path)
                if isinstance(v, Ref):
                    cell, path = v.cell, list(v.path)
                elif isinstance(v, Top):
                    return v
                # else: Box / transparent pointer: same location
            elif k == "field":
                path.append(("f", e[1]))
            elif k == "downcast":
                nx = proj[i + 1] if i + 1 < len(proj) else None
                if nx is None:
                    pass
                else:
                    path.append(("vf", e[1], nx[1]))
                    i += 1
            elif k == "index":
                ix = self.cells.get((fr.id, e[1]))
                path.append(("i", ix))
            elif k == "cindex":
                if e[2]:
                    base = self.read_path(self.cells.get(cell, UNINIT), path)
                    path.append(("i", alen(base) - e[1]))
                else:
                    path.append(("i", N(e[1])))
            elif k == "subslice":
                base = self.read_path(self.cells.get(cell, UNINIT), path)
                n = alen(base)
                if e[3]:
                    path.append(("sl", N(e[1]), n - e[1] - e[2]))
                else:
                    path.append(("sl", N(e[1]), N(e[2] - e[1])))
            elif k == "cast":
                pass
            else:
                raise Unmodelled("projection %s" % k)
            i += 1
        return Ref(cell, path, True)

    def pread(self, fr, pl):
        r = self.place(fr, pl)
        if isinstance(r, Top):
            return r
        return self.read(r)

    def operand(self, fr, o):
        if "copy" in o:
            return self.pread(fr, o["copy"])
        if "move" in o:
            return self.pread(fr, o["move"])
        if "rtcheck" in o:
            return FALSE
        return self.const(fr, o["const"])

    def const(self, fr, c):
        t = self.ty(c["ty"])
        k = t["k"]
        if "promoted" in c:
            owner = self.P.bodies.get(c.get("owner"))
            if owner is not None:
                key = ("promoted", c["owner"], c["promoted"])
                pb = owner["promoted"][c["promoted"]]
                pb = dict(pb, key="promoted", path=owner["path"]) if "key" not in pb else pb
                return self.run_body(self._prom(owner, c["promoted"]), [])
        if "v" in c and c["v"] is not None:
            v = int(c["v"])
            if k == "bool":
                return TRUE if v else FALSE
            if k == "int":
                w = t["w"]
                if v >= 1 << (w - 1):
                    v -= 1 << w
                return N(v)
            return N(v)
        if "str" in c:
            return Str(c["str"])
        if k == "tuple" and not t["elems"]:
            return UNIT
        if k == "closure":
            return Agg(c["ty"], [])
        r = c.get("repr", "")
        h = self.models.get(("const", r.split("::<")[0])) or self.models.get(("const", r))
        if h:
            return h(self, c)
        if k == "adt":
            p = t["path"]
            ad = self.P.adts.get(t["s"])
            if ad is not None and ad["kind"] == "struct" and not ad["variants"][0]["fields"]:
                return Agg(c["ty"], [])
        if k == "other" or k == "fndef":
            return FnV(r)
        return Top("constant %s" % r[:60])

    def _prom(self, owner, i):
        pb = owner["promoted"][i]
        if "key" not in pb:
            pb["key"] = owner["key"] + "::promoted[%d]" % i
            pb["path"] = owner["path"]
        return pb

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, rv, dest_ty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "ref":
            r = self.place(fr, rv[1])
            if isinstance(r, Top):
                return r
            return Ref(r.cell, r.path, bool(rv[2]))
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), rv[4])
        if k == "un":
            x = self.operand(fr, rv[2])
            if rv[1] == "Not":
                if isinstance(x, Bl):
                    return bnot(x)
                ii = self.int_info(rv[3])
                if ii and not ii[0]:
                    return bitnot(self.num(x), ii[1])
                return Top("signed not")
            if rv[1] == "Neg":
                return -self.num(x)
            if rv[1] == "PtrMetadata":
                v = self.rd(x)
                if isinstance(v, RingC):
                    v = self.ring_rows(v)
                if isinstance(v, Top):
                    return top_scalar(v.why)
                return alen(v)
            return Top("unop %s" % rv[1])
        if k == "cast":
            return self.cast(rv[1], self.operand(fr, rv[2]), rv[3], rv[4])
        if k == "agg":
            ops = [self.operand(fr, o) for o in rv[2]]
            a = rv[1]
            if a["k"] == "tuple":
                return Agg("tuple", ops)
            if a["k"] == "array":
                return Lst(ops)
            if a["k"] == "closure":
                return Agg(a["ty"], ops)
            if a["k"] == "adt":
                t = self.ty(a["ty"])
                ad = self.P.adts.get(t["s"]) or (self.adt_std(t) if t["k"] == "adt" else None)
                if ad is not None and ad["kind"] == "enum":
                    return En(a["ty"], N(a["variant"]), {a["variant"]: tuple(ops)})
                if ad is None and a.get("variant"):
                    return En(a["ty"], N(a["variant"]), {a["variant"]: tuple(ops)})
                return Agg(a["ty"], ops)
            return Top("aggregate")
        if k == "discr":
            v = self.pread(fr, rv[1])
            v = self.expand(v)
            if isinstance(v, En):
                return v.d
            if isinstance(v, Top):
                return top_scalar(v.why)
            if isinstance(v, Agg):
                return ZERO
            return top_scalar("discriminant of %s" % type(v).__name__)
        if k == "repeat":
            x = self.operand(fr, rv[1])
            n = rv[2]
            if n is None:
                return Top("repeat")
            return mk_arr(N(int(n)), lambda i: x)
        if k == "len":
            v = self.pread(fr, rv[1])
            return alen(v)
        return Top("rvalue %s" % (rv[1] if len(rv) > 1 and isinstance(rv[1], str) else k))

    def num(self, x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, Bl):
            return b2i(x)
        if isinstance(x, Ref):
            return self.num(self.read(x))
        if isinstance(x, Top):
            return top_scalar(x.why)
        return top_scalar("number from %s" % type(x).__name__)

    def boo(self, x):
        if isinstance(x, Bl):
            return x
        if isinstance(x, Poly):
            return bnot(eq0(x))
        if isinstance(x, Ref):
            return self.boo(self.read(x))
        return bsym("top", str(getattr(x, "why", type(x).__name__)), next(VV._topc))

    def irange(self, ty):
        ii = self.int_info(ty)
        if ii is None:
            return None
        if ii[0]:
            return -(1 << (ii[1] - 1)), (1 << (ii[1] - 1)) - 1
        return 0, (1 << ii[1]) - 1

    def inrange(self, r, ty, what, x=None, y=None):
        rg = self.irange(ty)
        if rg is None:
            return r
        ok = False
        if r.const() is not None:
            ok = rg[0] <= r.const() <= rg[1]
        elif x is not None:
            lx, ux, ly, uy = lb(x), ub(x), lb(y), ub(y)
            lo = hi = None
            if what == "add":
                lo = None if lx is None or ly is None else lx + ly
                hi = None if ux is None or uy is None else ux + uy
            elif what == "sub":
                lo = None if lx is None or uy is None else lx - uy
                hi = None if ux is None or ly is None else ux - ly
            elif what == "mul" and None not in (lx, ux, ly, uy):
                c4 = (lx * ly, lx * uy, ux * ly, ux * uy)
                lo, hi = min(c4), max(c4)
            if lo is not None or hi is not None:
                learn(r, lo, hi)
            ok = lo is not None and hi is not None and lo >= rg[0] and hi <= rg[1]
        if not ok and r.const() is None:
            ok = prove_ge0(r - rg[0]) and prove_ge0(N(rg[1]) - r)
        self.obl.append(("overflow", self.where(), ok, (what, r, rg, tuple(F.stack))))
        return r

    def binop(self, op, a, b, ty):
        if op.endswith("WithOverflow"):
            op = op[:-12]
            r = self.binop(op, a, b, ty)
            return Agg("tuple", [r, FALSE])
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Bl) and isinstance(b, Bl):
                if op in ("Eq", "Ne"):
                    if b is TRUE:
                        r = a
                    elif b is FALSE:
                        r = bnot(a)
                    elif a is b:
                        r = TRUE
                    else:
                        r = bite(a, b, bnot(b))
                    return r if op == "Eq" else bnot(r)
            x, y = self.num(a), self.num(b)
            return {"Eq": lambda: eq(x, y), "Ne": lambda: bnot(eq(x, y)), "Lt": lambda: lt(x, y), "Le": lambda: le(x, y),
                    "Gt": lambda: lt(y, x), "Ge": lambda: le(y, x)}[op]()
        if isinstance(a, Bl) and isinstance(b, Bl):
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                return bite(a, bnot(b), b)
        if isinstance(a, Ref) and op == "Offset":
            return self.ptr_add(a, self.num(b))
        x, y = self.num(a), self.num(b)
        ii = self.int_info(ty)
        signed, w = ii if ii else (False, None)
        if op == "Add":
            return self.inrange(x + y, ty, "add", x, y)
        if op == "Sub":
            return self.inrange(x - y, ty, "sub", x, y)
        if op == "Mul":
            return self.inrange(x * y, ty, "mul", x, y)
        if op in ("Div", "Rem"):
            if y.const() == 0:
                raise Diverge()
            if signed and not (prove_ge0(x) and prove_ge0(y)):
                return top_scalar("signed division")
            return fdiv(x, y) if op == "Div" else mod(x, y)
        if op == "Shl":
            if w is None:
                return x * pow2(y)
            self.inrange_shift(y, w)
            r = x * pow2(y)
            if signed:
                return self.inrange(r, ty, "shl")
            return wrapu(r, w)
        if op == "Shr":
            if w is not None:
                self.inrange_shift(y, w)
            r = fdiv(x, pow2(y))
            if y.const() is not None and len(r.t) > 1:
                lo, hi, c = lb(x), ub(x), 1 << int(y.const())
                if lo is not None and hi is not None:
                    learn(r, lo // c, hi // c)
            return r
        if op == "BitAnd":
            return bitand(x, y, w)
        if op == "BitOr":
            return bitor(x, y, w)
        if op == "BitXor":
            return bitxor(x, y, w)
        return top_scalar("binop %s" % op)

    def inrange_shift(self, y, w):
        ok = (y.const() is not None and 0 <= y.const() < w) or (prove_ge0(y) and prove_ge0(N(w - 1) - y))
        self.obl.append(("shift", self.where(), ok, ("shift", y, (0, w - 1), tuple(F.stack))))

    def cast(self, kind, x, to, frm):
        if kind in ("IntToInt",):
            tt = self.ty(to)
            if isinstance(x, Bl):
                return b2i(x)
            x = self.num(x)
            ii = self.int_info(to)
            if ii is None:
                return x
            signed, w = ii
            if not signed:
                return wrapu(x, w)
            lo, hi = self.irange(to)
            if prove_ge0(x - lo) and prove_ge0(N(hi) - x):
                return x
            y = wrapu(x, w)
            return ite(lt(y, N(1 << (w - 1))), y, y - (1 << w))
        return x

    def ptr_add(self, p, k):
        if isinstance(p, Ref) and p.path and p.path[-1][0] == "i":
            return Ref(p.cell, p.path[:-1] + (("i", p.path[-1][1] + k),), p.mut)
        return Top("pointer arithmetic")

    # ---------------------------------------------------------------- execution
    def stmt(self, fr, s):
        if s[0] == "=":
            pl = s[1]
            v = self.rvalue(fr, s[2], pl["ty"])
            if not pl["p"]:
                self.cells[(fr.id, pl["l"])] = v
            else:
                self.write(self.place(fr, pl), v)
        elif s[0] == "setdiscr":
            r = self.place(fr, s[1])
            v = self.expand(self.read(r))
            if isinstance(v, En):
                self.write(r, En(v.ty, N(s[2]), v.pl))
            else:
                self.write(r, En(None, N(s[2]), {}))
        elif s[0] == "intr":
            pass

    def merge_states(self, outs):
        """outs: list of (guard, cells, facts). returns (guard, cells, facts)"""
        if len(outs) == 1:
            return outs[0]
        g = bor(*[o[0] for o in outs])
        cells = dict(outs[-1][1])
        for gd, cs, fs in reversed(outs[:-1]):
            keys = set(cs) | set(cells)
            for k in keys:
                a, b = cs.get(k), cells.get(k)
                if a is b:
                    continue
                if a is None or b is None:
                    cells[k] = a if b is None else b
                    continue
                cells[k] = self.vmerge(gd, a, b)
        fs = [f for f in outs[0][2] if all(f in o[2] for o in outs[1:])]
        return g, cells, fs

    def vmerge(self, g, a, b):
        try:
            return vite(g, a, b)
        except Unmodelled as e:
            return Top(str(e))

    def go(self, fr, b, stops, first=False):
        base = len(F.stack)
        blocks = fr.body["blocks"]
        while True:
            if b in stops and not first:
                return {b: (TRUE, self.cells, list(F.stack[base:]))}
            if b in fr.cfg.loops and b not in fr.active:
                outs = self.do_loop(fr, b)
                if not outs:
                    return {}
                r = self.continue_from(fr, outs, stops, base)
                if isinstance(r, dict):
                    return r
                b = r
                first = False
                continue
            first = False
            blk = blocks[b]
            for s in blk["s"]:
                self.stmt(fr, s)
            t = blk["t"]
            k = t[0]
            if k == "goto":
                b = t[1]
            elif k == "return":
                return {"ret": (TRUE, self.cells, list(F.stack[base:]))}
            elif k == "unreachable":
                return {}
            elif k == "call":
                self.sites.append("%s:%d" % (fr.key, b))
                try:
                    v = self.call(fr, t)
                except Diverge:
                    return {}
                finally:
                    self.sites.pop()
                if t[4] is None:
                    return {}
                pl = t[3]
                if not pl["p"]:
                    self.cells[(fr.id, pl["l"])] = v
                else:
                    self.write(self.place(fr, pl), v)
                b = t[4]
            elif k == "assert":
                c = self.operand(fr, t[1])
                c = self.boo(c)
                if not t[2]:
                    c = bnot(c)
                d = decide(c)
                if t[4] == "bounds":
                    self.obl.append(("bounds", self.where(), d is True, ("bounds", c, None, tuple(F.stack))))
                if d is False:
                    return {}
                push_fact(c)
                b = t[3]
            elif k == "switch":
                x = self.operand(fr, t[1])
                conds = []
                if isinstance(x, (Bl,)):
                    rest = TRUE
                    for val, tgt in t[2]:
                        c = x if val else bnot(x)
                        conds.append((c, tgt))
                        rest = band(rest, bnot(c))
                    conds.append((rest, t[3]))
                else:
                    x = self.num(x)
                    rest = TRUE
                    for val, tgt in t[2]:
                        val = int(val)
                        ii = self.int_info(t[4])
                        if ii and ii[0] and val >= 1 << (ii[1] - 1):
                            val -= 1 << ii[1]
                        c = eq(x, N(val))
                        conds.append((c, tgt))
                        rest = band(rest, bnot(c))
                    conds.append((rest, t[3]))
                # unreachable otherwise
                live = []
                for c, tgt in conds:
                    if tgt is None or blocks[tgt] is None:
                        continue
                    bt = blocks[tgt]
                    if bt["t"][0] == "unreachable" and not bt["s"]:
                        continue
                    d = decide(c)
                    if d is False:
                        continue
                    live.append((c, tgt, d))
                if any(d is True for _, _, d in live):
                    live = [l for l in live if l[2] is True][:1]
                # group by target
                grp = {}
                for c, tgt, d in live:
                    grp[tgt] = bor(grp[tgt], c) if tgt in grp else c
                if not grp:
                    return {}
                if len(grp) == 1:
                    (tgt, c), = grp.items()
                    b = tgt
                    continue
                j = fr.cfg.ipdom.get(b)
                st2 = stops | ({j} if j is not None else set())
                outs = {}
                saved = self.cells
                nf = len(F.stack)
                for tgt, c in grp.items():
                    self.cells = dict(saved)
                    push_fact(c)
                    if contradictory_light(nf):
                        del F.stack[nf:]
                        continue
                    r = self.go(fr, tgt, st2)
                    for tg, (g, cs, fs) in r.items():
                        outs.setdefault(tg, []).append((band(c, g), cs, [c] + fs))
                    del F.stack[nf:]
                self.cells = saved
                if not outs:
                    return {}
                m = {tg: self.merge_states(l) for tg, l in outs.items()}
                r = self.continue_from(fr, m, stops, base)
                if isinstance(r, dict):
                    return r
                b = r
            else:
                raise Unmodelled("terminator %s" % k)

    def continue_from(self, fr, m, stops, base):
        """m: target -> (guard, cells, facts).  Continue with the targets that
        are not stops; returns a block to continue with, or final results"""
        if len(m) == 1:
            (tg, (g, cs, fs)), = m.items()
            self.cells = cs
            for f in fs:
                if f not in F.stack:
                    push_fact(f)
            if g is not TRUE and decide(g) is None:
                push_fact(g)
            if tg in stops or tg == "ret":
                return {tg: (TRUE, cs, list(F.stack[base:]))}
            return tg
        res = {}
        cont = [tg for tg in m if tg not in stops and tg != "ret"]
        for tg in m:
            if tg not in cont:
                res.setdefault(tg, []).append(m[tg])
        # continue the non-stop targets (in order of appearance)
        while cont:
            tg = cont.pop(0)
            # merge later targets reached through this one
            g, cs, fs = m[tg]
            nf = len(F.stack)
            for f in fs:
                push_fact(f)
            push_fact(g)
            self.cells = dict(cs)
            r = self.go(fr, tg, stops | set(cont))
            del F.stack[nf:]
            for t2, (g2, cs2, fs2) in r.items():
                e = (band(g, g2), cs2, fs + fs2)
                if t2 in cont:
                    m[t2] = self.merge_states([m[t2], e])
                else:
                    res.setdefault(t2, []).append(e)
        if not res:
            return {}
        out = {tg: self.merge_states(l) for tg, l in res.items()}
        if len(out) == 1:
            (tg, (g, cs, fs)), = out.items()
            self.cells = cs
            for f in fs:
                if f not in F.stack:
                    push_fact(f)
            if g is not TRUE and decide(g) is None:
                push_fact(g)
            return {tg: (TRUE, cs, list(F.stack[base:]))}
        return out

    def run_body(self, body, args):
        if self.depth > self.maxdepth:
            raise Unmodelled("inlining depth")
        fr = Frame()
        fr.id = next(self.fid)
        fr.body = body
        fr.key = body["key"]
        fr.cfg = self.P.cfg(body)
        fr.active = set()
        for i, a in enumerate(args):
            self.cells[(fr.id, i + 1)] = a
        for i, l in enumerate(body["locals"]):
            self.cellty[(fr.id, i)] = l[0]
        self.depth += 1
        self.stack.append(body["key"])
        self.visited.add(body["key"])
        try:
            r = self.go(fr, 0, frozenset())
        finally:
            self.depth -= 1
            self.stack.pop()
        if "ret" not in r:
            raise Diverge()
        g, cs, fs = r["ret"]
        self.cells = cs
        for f in fs:
            if f not in F.stack:
                push_fact(f)
        return self.cells.get((fr.id, 0), UNIT)

    # ---------------------------------------------------------------- calls
    def call(self, fr, t):
        cal = t[1]
        args = [self.operand(fr, o) for o in t[2]]
        if "ptr" in cal:
            f = self.operand(fr, cal["ptr"])
            return self.apply(f, args)
        return self.call_callee(cal, args, t[3]["ty"])

    def call_callee(self, cal, args, dest_ty=None):
        key = cal.get("key")
        if cal.get("orig") in CLOSURE_CALLS and len(args) == 2:
            tup = self.expand(args[1])
            f = self.deref_all(args[0]) if isinstance(args[0], Ref) else args[0]
            if isinstance(tup, Agg) and not isinstance(f, Top):
                self.calls.append((self.where(), key or cal["orig"]))
                return self.apply(f, list(tup.f))
        names = [n for n in (key, cal.get("res"), cal.get("orig")) if n]
        self.calls.append((self.where(), names[0]))
        if key:
            base = key.split("@")[0]
            c = self.contracts.get(key) or self.contracts.get(base)
            if c is not None and not (self.stack and base in self.nocontract):
                r = c(self, args, cal, dest_ty)
                if r is not NotImplemented:
                    self.used.add(base)
                    return r
            body = self.P.bodies.get(key)
            m = self.models.get(base)
            if m is not None:
                r = m(self, args, cal, dest_ty)
                if r is not NotImplemented:
                    return r
            if body is not None:
                if cal.get("derived") or body.get("derived"):
                    m = self.derived(cal, body, args, dest_ty)
                    if m is not NotImplemented:
                        return m
                if self.stack.count(key) >= 2:
                    raise Unmodelled("recursion into %s" % key)
                return self.run_body(body, args)
        m = self.lookup_model(cal)
        if m is not None:
            r = m(self, args, cal, dest_ty)
            if r is not NotImplemented:
                return r
        if cal.get("never"):
            self.panics.append((self.where(), names[0], tuple(F.stack)))
            raise Diverge()
        m = self.model_generic(cal, args, dest_ty)
        if m is not NotImplemented:
            return m
        # unmodelled external function: havoc mutable arguments
        self.notes.append("unmodelled callee %s in %s" % (names[-1], self.where()))
        for a in args:
            if isinstance(a, Ref) and a.mut:
                self.write(a, Top("havoc by %s" % names[-1]))
        return Top("result of %s" % names[-1])

    nocontract = frozenset()

    def model_generic(self, cal, args, dest_ty):
        return NotImplemented

    def derived(self, cal, body, args, dest_ty):
        o = cal.get("orig") or ""
        if o.endswith("Clone::clone"):
            return self.read(args[0])
        if o.endswith("PartialEq::eq"):
            return self.veq(self.rd(args[0]), self.rd(args[1]))
        if o.endswith("PartialEq::ne"):
            return bnot(self.veq(self.rd(args[0]), self.rd(args[1])))
        return NotImplemented

    def veq(self, a, b):
        """structural equality as a boolean"""
        if a is b:
            return TRUE
        if is_scalar(a) and is_scalar(b):
            if isinstance(a, Bl) and isinstance(b, Bl):
                return self.binop("Eq", a, b, None)
            return eq(self.num(a), self.num(b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.veq(self.rd(a), self.rd(b))
        if isinstance(a, Ob) and isinstance(b, Ob):
            if a.key is b.key:
                return TRUE
            t = self.ty(a.ty)
            ea = self.expand(a)
            if isinstance(ea, En):
                return self.veq(ea, self.expand(b))
            if a.key in DISTINCT and b.key in DISTINCT:
                return FALSE
            return oeq(a.key, b.key)
        if isinstance(a, (En, Ob)) and isinstance(b, (En, Ob)):
            a, b = self.expand(a), self.expand(b)
            if isinstance(a, En) and isinstance(b, En):
                r = eq(a.d, b.d)
                if r is FALSE:
                    return r
                for k in set(a.pl) & set(b.pl):
                    if a.pl[k]:
                        r = band(r, bor(bnot(eq(a.d, N(k))), band(*[self.veq(x, y) for x, y in zip(a.pl[k], b.pl[k])])))
                return r
        if isinstance(a, Agg) and isinstance(b, Agg):
            return band(*[self.veq(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, (Agg, Ob)) and isinstance(b, (Agg, Ob)):
            a, b = self.expand(a), self.expand(b)
            if isinstance(a, Agg) and isinstance(b, Agg):
                return self.veq(a, b)
        if isinstance(a, RingC) and isinstance(b, RingC):
            return _mkring_eq(a.r, b.r)
        arrs = (Arr, Lst, Cat)
        if isinstance(a, arrs) and isinstance(b, arrs):
            ka, kb = vkey(a), vkey(b)
            if ka == kb:
                return TRUE
            if isinstance(a, Lst) and isinstance(b, Lst):
                if len(a.els) != len(b.els):
                    return FALSE
                return band(*[self.veq(x, y) for x, y in zip(a.els, b.els)])
            return bsym("aeq", frozenset((ka, kb)))
        return bsym("top", "veq", next(VV._topc))

    def apply(self, f, args):
        """call a closure value / fn item with untupled args"""
        if isinstance(f, Ref):
            clo = self.rd(f)
            ref = self.deref_all(f)
        else:
            clo = f
            ref = None
        if isinstance(clo, Agg) and isinstance(clo.ty, int):
            t = self.ty(clo.ty)
            body = self.P.bodies.get(t.get("key")) if t["k"] == "closure" else None
            if body is None:
                raise Unmodelled("closure body %s" % t.get("s"))
            selfty = self.ty(body["locals"][1][0])
            if selfty["k"] == "ref":
                if ref is None:
                    ref = Ref(self.new_cell(clo, None, "clo"), (), True)
                a0 = ref
            else:
                a0 = clo
            return self.run_body(body, [a0] + list(args))
        if isinstance(clo, FnV):
            m = self.models.get(("fn", clo.callee))
            if m:
                return m(self, args)
            k = self.P.bodies.get(clo.callee)
            if k is not None:
                return self.run_body(k, args)
        raise Unmodelled("call through %s" % type(clo).__name__)


CLOSURE_CALLS = {"std::ops::%s" % x for x in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once")}


def contradictory_light(n):
    """is one of the new facts refuted by the older ones?"""
    new = F.stack[n:]
    old = F.stack
    F.stack = old[:n]
    try:
        for f in new:
            if decide(f) is False:
                return True
    finally:
        F.stack = old
    return False


# ------------------------------------------------------------------ object keys
CANON = []       # functions (op, key, arg) -> Atom/Poly or None
COLS_HOOK = None
EXPAND_HOOK = None
DISTINCT = set()


def fld(key, name):
    for f in CANON:
        r = f("fld", key, name)
        if r is not None:
            return r
    return atom("fld", key, name)


def idx(key, i):
    i = N(i)
    for f in CANON:
        r = f("idx", key, i)
        if r is not None:
            return r
    return atom("idx", key, i)


def lenof(key):
    for f in CANON:
        r = f("len", key, None)
        if r is not None:
            return r
    return N(atom("len", key))


def mkscalar(code, key):
    for f in CANON:
        r = f("val", key, code)
        if r is not None:
            return r
    return N(atom("val", code, key))


def mkdisc(key, n):
    for f in CANON:
        r = f("disc", key, n)
        if r is not None:
            return r
    return N(atom("disc", n, key))


def oeq(a, b):
    for f in CANON:
        r = f("oeq", a, b)
        if r is not None:
            return r
    return bsym("oeq", frozenset((a, b)))


def _mkring_eq(a, b):
    if a is b:
        return TRUE
    return bsym("req", frozenset((a, b)))


def _rb_key(x):
    if isinstance(x, Poly):
        s = x.single_atom()
        if s is None:
            return x
        return s
    return x


REBUILD["fld"] = lambda k, n: N(fld(_rb_key(k), n))
REBUILD["idx"] = lambda k, i: N(idx(_rb_key(k), i))
REBUILD["len"] = lambda k: lenof(_rb_key(k))
REBUILD["val"] = lambda c, k: mkscalar(c, _rb_key(k))
REBUILD["disc"] = lambda n, k: mkdisc(_rb_key(k), n)


def _oite(c, a, b):
    a, b = _rb_key(a), _rb_key(b)
    if a is b:
        return N(a)
    d = decide(c)
    if d is True:
        return N(a)
    if d is False:
        return N(b)
    return N(atom("oite", c, a, b))


REBUILD["oite"] = _oite

TYR = {}
for _w in (8, 16, 32, 64, 128):
    TYR["u%d" % _w] = (0, (1 << _w) - 1)
    TYR["i%d" % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)
TYR["usize"] = TYR["u64"]
TYR["isize"] = TYR["i64"]
INVB = []     # functions (code, key) -> (los, his) or None


def _valbounds(a):
    code, key = a.args
    los, his = [], []
    if code in TYR:
        lo, hi = TYR[code]
        los.append(N(lo))
        his.append(N(hi))
    elif code == "big":
        los.append(ZERO)
    for f in INVB:
        r = f(code, key)
        if r is not None:
            los += [N(x) for x in r[0]]
            his += [N(x) for x in r[1]]
    return los, his


BOUND_HOOK["val"] = _valbounds
BOUND_HOOK["disc"] = lambda a: ([ZERO], [N(a.args[0] - 1)])
BOUND_HOOK["len"] = lambda a: ([ZERO], [N(2 ** 32)])
BOUND_HOOK["cols"] = lambda a: ([ZERO], [N(2 ** 32)])
