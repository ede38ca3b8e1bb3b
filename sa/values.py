"""Abstract values of the value-graph analysis (immutable, built over terms)."""
from terms import *
import terms as T
import itertools


class V:
    __slots__ = ()


class Agg(V):
    """struct / tuple / closure"""
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, tuple(f)

    def __repr__(self):
        return "Agg(%s)" % ", ".join(map(repr, self.f))


class En(V):
    __slots__ = ("ty", "d", "pl")

    def __init__(self, ty, d, pl):
        self.ty, self.d, self.pl = ty, N(d), pl

    def __repr__(self):
        return "En(%r, %r)" % (self.d, self.pl)


class Arr(V):
    """array of symbolic length: element v is body(v)"""
    __slots__ = ("n", "v", "body", "ety", "phi")

    def __init__(self, n, v, body, ety=None, phi=None):
        self.n, self.v, self.body, self.ety, self.phi = N(n), v, body, ety, phi

    def __repr__(self):
        return "Arr[%r](%r -> %r)" % (self.n, self.v, self.body)


class Lst(V):
    __slots__ = ("els", "ety")

    def __init__(self, els, ety=None):
        self.els, self.ety = tuple(els), ety

    def __repr__(self):
        return "Lst%r" % (list(self.els),)


class Cat(V):
    """concatenation of arrays (push / extend)"""
    __slots__ = ("parts", "ety")

    def __init__(self, parts, ety=None):
        self.parts, self.ety = tuple(parts), ety

    def __repr__(self):
        return "Cat%r" % (list(self.parts),)


class Ref(V):
    __slots__ = ("cell", "path", "mut")

    def __init__(self, cell, path=(), mut=False):
        self.cell, self.path, self.mut = cell, tuple(path), mut

    def __repr__(self):
        return "Ref(%s%s)" % (self.cell, "".join(str(p) for p in self.path))


class Ob(V):
    """opaque object named by an atom, expanded lazily"""
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def __repr__(self):
        return "Ob(%r)" % (self.key,)


class RingC(V):
    """coefficient matrix of a ring element (ring level)"""
    __slots__ = ("r", "ctx")

    def __init__(self, r, ctx):
        self.r, self.ctx = r, ctx

    def __repr__(self):
        return "Ring(%r)" % (self.r,)


class It(V):
    __slots__ = ("src", "pos")

    def __init__(self, src, pos=None):
        self.src, self.pos = src, N(0) if pos is None else pos

    def __repr__(self):
        return "It(%s,%r)" % (type(self.src).__name__, self.pos)


class MapV(V):
    """finite map given by its insertion history: (key, value, guard, index var, count)"""
    __slots__ = ("ins", "base")

    def __init__(self, ins, base=None):
        self.ins, self.base = tuple(ins), base


class FnV(V):
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Top(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Uninit(V):
    __slots__ = ()

    def __repr__(self):
        return "?"


UNINIT = Uninit()
UNIT = Agg("tuple", ())
_topc = itertools.count(1)


def top_scalar(why):
    return N(atom("top", str(why), next(_topc)))


def is_scalar(x):
    return isinstance(x, (Poly, Bl))


def tops(x):
    """reasons for every unmodelled part inside a term"""
    return sorted({str(a.args[0]) for a in fv(x) if a.op == "top"})


# ------------------------------------------------------------------ substitution
def vsubst(x, mp):
    if not mp:
        return x
    if is_scalar(x):
        return subst(x, mp)
    if isinstance(x, Agg):
        f = [vsubst(y, mp) for y in x.f]
        return x if all(a is b for a, b in zip(f, x.f)) else Agg(x.ty, f)
    if isinstance(x, En):
        return En(x.ty, subst(x.d, mp), {k: tuple(vsubst(y, mp) for y in v) for k, v in x.pl.items()})
    if isinstance(x, Arr):
        if x.v in mp:
            mp = {k: v for k, v in mp.items() if k is not x.v}
        n = subst(x.n, mp)
        if n is x.n and not any(x.v in fv(v) for v in mp.values() if isinstance(v, (Poly, Bl, Atom))):
            # same range and no capture: the index variable can stay
            b = vsubst(x.body, mp)
            return x if b is x.body else Arr(n, x.v, b, x.ety, x.phi)
        nv = fresh_ix(subst(x.n, mp))
        m2 = dict(mp)
        m2[x.v] = N(nv)
        return Arr(subst(x.n, mp), nv, vsubst(x.body, m2), x.ety, x.phi)
    if isinstance(x, Lst):
        return Lst([vsubst(y, mp) for y in x.els], x.ety)
    if isinstance(x, Cat):
        return Cat([vsubst(y, mp) for y in x.parts], x.ety)
    if isinstance(x, Ref):
        return Ref(x.cell, [psubst(p, mp) for p in x.path], x.mut)
    if isinstance(x, Ob):
        k = asubst(x.key, mp)
        if k is x.key:
            return x
        if isinstance(k, Atom):
            return Ob(k, x.ty)
        return Top("subst-ob")
    if isinstance(x, RingC):
        return RingC(subst(x.r, mp), asubst(x.ctx, mp))
    if isinstance(x, It):
        return It(x.src.subst(mp), subst(x.pos, mp))
    if isinstance(x, MapV):
        return MapV([tuple(vsubst(z, mp) if isinstance(z, (V, Poly, Bl)) else z for z in e) for e in x.ins], x.base)
    return x


def asubst(a, mp):
    """substitute inside an object key"""
    if not (fv(a) & frozenset(mp)):
        return a
    r = subst(N(a), mp)
    s = r.single_atom()
    return s if s is not None else r


def psubst(p, mp):
    return tuple(subst(z, mp) if isinstance(z, Poly) else z for z in p)


_ixn = itertools.count(1)


def fresh_ix(n=None):
    a = atom("var", "x", next(T._fresh))
    RANGE[a] = ([ZERO], [N(n) - 1] if n is not None else [])
    return a


# ------------------------------------------------------------------ array access
def alen(x):
    if isinstance(x, Arr):
        return x.n
    if isinstance(x, Lst):
        return N(len(x.els))
    if isinstance(x, Cat):
        r = ZERO
        for p in x.parts:
            r = r + alen(p)
        return r
    raise Unmodelled("len of %s" % type(x).__name__)


class Unmodelled(Exception):
    pass


def aget(x, i, I=None):
    i = N(i)
    if isinstance(x, Arr):
        return vsubst(x.body, {x.v: i})
    if isinstance(x, Lst):
        c = i.const()
        if c is not None:
            if 0 <= c < len(x.els):
                return x.els[int(c)]
            return Top("out of bounds constant index")
        if not x.els:
            return Top("index into empty array")
        r = x.els[-1]
        for k in range(len(x.els) - 2, -1, -1):
            r = vite(eq(i, k), x.els[k], r)
        return r
    if isinstance(x, Cat):
        off = ZERO
        segs = []
        for p in x.parts:
            segs.append((off, p))
            off = off + alen(p)
        out = None
        single = None
        for off, p in reversed(segs):
            if isinstance(p, Lst) and len(p.els) == 1 and out is None and ge0(i - off) is not TRUE and eq(i, off) is not FALSE:
                single = eq(i, off)
                out = p.els[0]
                continue
            if single is not None:
                # an element appended last: it is selected by its index alone
                with assume(bnot(single)):
                    e = aget(Cat([q for o, q in segs if o is not segs[-1][0] or q is not segs[-1][1]], x.ety) if len(segs) > 2 else p, i)
                return vite(single, out, e)
            inside_hi = lt(i, off + alen(p))
            lo_ok = ge0(i - off)
            if lo_ok is TRUE and inside_hi is TRUE:
                return aget(p, i - off)
            if inside_hi is FALSE or lo_ok is FALSE:
                continue
            with assume(lo_ok if out is None else inside_hi, lo_ok):
                e = aget(p, i - off)
            out = e if out is None else vite(inside_hi, e, out)
        if out is None:
            return Top("index outside concatenation")
        return out
    if isinstance(x, Top):
        return x
    raise Unmodelled("index into %s" % type(x).__name__)


def to_arr(x):
    """uniform lambda form"""
    if isinstance(x, Arr):
        return x
    n = alen(x)
    v = fresh_ix(n)
    return Arr(n, v, aget(x, N(v)), getattr(x, "ety", None))


def mk_arr(n, f, ety=None):
    n = N(n)
    c = n.const()
    if c is not None and c <= 4:
        return Lst([f(N(k)) for k in range(int(c))], ety)
    v = fresh_ix(n)
    return Arr(n, v, f(N(v)), ety)


def aslice(x, lo, n):
    lo, n = N(lo), N(n)
    if lo is ZERO and n is alen(x):
        return x
    if isinstance(x, Lst) and lo.const() is not None and n.const() is not None:
        return Lst(x.els[int(lo.const()):int(lo.const() + n.const())], x.ety)
    if isinstance(x, Cat):
        # whole parts
        off = ZERO
        for k, p in enumerate(x.parts):
            if off is lo and alen(p) is n:
                return p
            off = off + alen(p)
    nc = n.const()
    if nc is not None and 0 <= nc <= 4:
        return Lst([aget(x, lo + k) for k in range(int(nc))], getattr(x, "ety", None))
    v = fresh_ix(n)
    return Arr(n, v, aget(x, N(v) + lo), getattr(x, "ety", None))


def aset(x, i, val):
    i = N(i)
    if isinstance(x, Top):
        return x
    if isinstance(x, Lst):
        c = i.const()
        if c is not None:
            l = list(x.els)
            if not (0 <= c < len(l)):
                return Top("out of bounds constant store")
            l[int(c)] = val
            return Lst(l, x.ety)
        return Lst([vite(eq(i, k), val, e) for k, e in enumerate(x.els)], x.ety)
    if isinstance(x, Cat):
        off = ZERO
        for k, p in enumerate(x.parts):
            n = alen(p)
            if prove_ge0(i - off) and prove_ge0(off + n - i - 1):
                return Cat(x.parts[:k] + (aset(p, i - off, val),) + x.parts[k + 1:], x.ety)
            off = off + n
        x = to_arr(x)
    if not isinstance(x, Arr):
        raise Unmodelled("store into %s" % type(x).__name__)
    return Arr(x.n, x.v, vite(eq(N(x.v), i), val, x.body), x.ety)


def aset_range(x, lo, n, new):
    lo, n = N(lo), N(n)
    if lo is ZERO and n is alen(x):
        return new
    if isinstance(x, Lst) and lo.const() is not None and n.const() is not None:
        l = list(x.els)
        for k in range(int(n.const())):
            l[int(lo.const()) + k] = aget(new, k)
        return Lst(l, x.ety)
    # splitting of a prefix or suffix keeps structure
    total = alen(x)
    a = to_arr(x)
    v = N(a.v)
    c = band(ge0(v - lo), lt(v, lo + n))
    with assume(c):
        e = aget(new, v - lo)
    return Arr(a.n, a.v, vite(c, e, a.body), a.ety)


# ------------------------------------------------------------------ merge
def vite(c, a, b):
    if a is b:
        return a
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, Bl) != isinstance(b, Bl):
            a = b2i(a) if isinstance(a, Bl) else a
            b = b2i(b) if isinstance(b, Bl) else b
        return ite(c, a, b)
    if isinstance(a, (Top, Uninit)) or isinstance(b, (Top, Uninit)):
        if isinstance(a, Uninit) and isinstance(b, Uninit):
            return a
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            # read of a maybe-uninitialised slot is impossible in safe code
            return b if isinstance(a, Uninit) else a
        return a if isinstance(a, Top) else b
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Agg(a.ty, [vite(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Ob) and isinstance(b, Ob) and a.key is b.key:
        return a
    if isinstance(a, (En, Ob)) and isinstance(b, (En, Ob)) and (isinstance(a, En) or isinstance(b, En)):
        a, b = EXPAND(a), EXPAND(b)
        if isinstance(a, En) and isinstance(b, En):
            pl = {}
            for k in set(a.pl) | set(b.pl):
                if k in a.pl and k in b.pl:
                    pl[k] = tuple(vite(c, x, y) for x, y in zip(a.pl[k], b.pl[k]))
                else:
                    pl[k] = a.pl[k] if k in a.pl else b.pl[k]
            return En(a.ty, ite(c, a.d, b.d), pl)
    if isinstance(a, Ob) and isinstance(b, Ob):
        return Ob(atom("oite", c, a.key, b.key), a.ty)
    if isinstance(a, (Agg, Ob)) and isinstance(b, (Agg, Ob)):
        a, b = EXPAND(a), EXPAND(b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return vite(c, a, b)
    arrs = (Arr, Lst, Cat)
    if isinstance(a, arrs) and isinstance(b, arrs):
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.els) == len(b.els):
            return Lst([vite(c, x, y) for x, y in zip(a.els, b.els)], a.ety)
        na, nb = alen(a), alen(b)
        if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts) \
                and all(alen(x) is alen(y) for x, y in zip(a.parts, b.parts)):
            return Cat([vite(c, x, y) for x, y in zip(a.parts, b.parts)], a.ety)
        n = na if na is nb else ite(c, na, nb)
        v = fresh_ix(n)
        with assume(c):
            x = aget(a, N(v))
        with assume(bnot(c)):
            y = aget(b, N(v))
        if isinstance(x, Top):
            x = y
        if isinstance(y, Top):
            y = x
        return Arr(n, v, vite(c, x, y), getattr(a, "ety", None))
    if isinstance(a, RingC) and isinstance(b, RingC):
        return RingC(ite(c, a.r, b.r), a.ctx if a.ctx is b.ctx else atom("oite", c, a.ctx, b.ctx))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.cell == b.cell and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if x == y:
                    p.append(x)
                elif x[0] == y[0] and len(x) == len(y):
                    p.append((x[0],) + tuple(u if u is w else (ite(c, u, w) if isinstance(u, Poly) else None)
                                             for u, w in zip(x[1:], y[1:])))
                else:
                    return REFMERGE(c, a, b)
            return Ref(a.cell, p, a.mut)
        return REFMERGE(c, a, b)
    if isinstance(a, It) and isinstance(b, It) and a.src is b.src:
        return It(a.src, ite(c, a.pos, b.pos))
    return Top("merge of %s and %s" % (type(a).__name__, type(b).__name__))


EXPAND = lambda x: x
REFMERGE = lambda c, a, b: Top("merge of references")


# ------------------------------------------------------------------ canonical keys
def _lvl(x):
    return T._maxlvl(x)


def vkey(x):
    """hash-consable canonical form of a value (alpha-canonical)"""
    if is_scalar(x):
        return x
    if isinstance(x, Agg):
        return ("agg",) + tuple(vkey(y) for y in x.f)
    if isinstance(x, En):
        c = x.d.const()
        if c is not None:
            return ("en", x.d) + tuple(vkey(y) for y in x.pl.get(int(c), ()))
        return ("en", x.d) + tuple((k,) + tuple(vkey(y) for y in x.pl[k]) for k in sorted(x.pl))
    if isinstance(x, Lst):
        if len(x.els) == 1 or len(x.els) == 0:
            return ("lst",) + tuple(vkey(y) for y in x.els)
        return ("lst",) + tuple(vkey(y) for y in x.els)
    if isinstance(x, (Arr, Cat)):
        if isinstance(x, Cat) and all(isinstance(p, Lst) for p in x.parts):
            return ("lst",) + tuple(vkey(e) for p in x.parts for e in p.els)
        a = to_arr(x)
        probe = vkey(a.body)
        l = _keylvl(probe) + 1
        b = atom("bv", l)
        if b not in RANGE:
            RANGE[b] = ([ZERO], [])
        # objects given by their elements: eta contraction
        r = ("arr", a.n, l, vkey(vsubst(a.body, {a.v: N(b)})))
        return r
    if isinstance(x, Ob):
        return x.key
    if isinstance(x, RingC):
        return ("ring", x.r)
    if isinstance(x, Ref):
        return ("ref", str(x.cell)) + tuple(x.path)
    if isinstance(x, Top):
        return N(atom("top", x.why, next(_topc)))
    return ("?", type(x).__name__, next(_topc))


def _keylvl(k):
    if isinstance(k, (Poly, Bl, Atom)):
        return _lvl(k)
    if isinstance(k, tuple):
        return max([_keylvl(y) for y in k] + [k[2] if len(k) > 2 and k[0] == "arr" else 0])
    return 0
