"""Transfer functions of the external library functions the crate calls."""
import re
from terms import *
import terms as T
from values import *
import values as VV
from interp import *
import interp as IN
from loops import mk_first

M = {}


def norm(s):
    if s is None:
        return None
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and s[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    while "::::" in r:
        r = r.replace("::::", "::")
    return r.strip(":")


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


OPT = "option"


def some(x):
    return En(None, ONE, {1: (x,)})


def none():
    return En(None, ZERO, {})


def opt(c, x):
    if c is TRUE:
        return some(x)
    if c is FALSE:
        return none()
    return En(None, b2i(c), {1: (x,)})


def require(I, c, what="panic"):
    d = decide(c)
    I.obl.append((what, I.where(), d is True, (what, c, None, tuple(F.stack))))
    if d is False:
        raise Diverge()
    if d is None:
        push_fact(c)


def axis_of(I, x):
    x = I.rd(x)
    if isinstance(x, Agg):
        x = x.f[0]
    c = I.num(x).const()
    if c is None:
        raise Unmodelled("symbolic axis")
    return int(c)


def rows(I, v):
    if isinstance(v, RingC):
        v = I.ring_rows(v)
    return v


# ================================================================== iterators
class Src:
    def key(self):
        return (type(self).__name__,) + tuple(_ky(getattr(self, a)) for a in self.__slots__)

    def subst(self, mp):
        return type(self)(*[_sb(getattr(self, a), mp) for a in self.__slots__])


def _ky(x):
    if isinstance(x, Src):
        return x.key()
    if isinstance(x, V):
        if isinstance(x, Ref):
            return ("ref", x.cell, x.path)
        return vkey(x)
    return x


def _sb(x, mp):
    if isinstance(x, Src):
        return x.subst(mp)
    if isinstance(x, (V, Poly, Bl)):
        return vsubst(x, mp)
    return x


class SRange(Src):
    __slots__ = ("lo", "len")

    def __init__(self, lo, len):
        self.lo, self.len = lo, len

    def n(self, I):
        return self.len

    def get(self, I, i):
        return self.lo + i


class SInf(Src):
    __slots__ = ("lo",)

    def __init__(self, lo):
        self.lo = lo

    def n(self, I):
        return None

    def get(self, I, i):
        return self.lo + i


class SSlice(Src):
    """references to the elements of an array behind a reference"""
    __slots__ = ("ref", "mut")

    def __init__(self, ref, mut):
        self.ref, self.mut = ref, mut

    def n(self, I):
        return alen(rows(I, I.rd(self.ref)))

    def get(self, I, i):
        return Ref(self.ref.cell, self.ref.path + (("i", N(i)),), self.mut)


class SCols(Src):
    __slots__ = ("ref", "mut")

    def __init__(self, ref, mut):
        self.ref, self.mut = ref, mut

    def n(self, I):
        v = rows(I, I.rd(self.ref))
        return width(I, v, self.ref)

    def get(self, I, j):
        return Ref(self.ref.cell, self.ref.path + (("col", N(j)),), self.mut)


def width(I, v, ref=None):
    if isinstance(v, Lst):
        if v.els:
            return alen(v.els[0])
        return top_scalar("width of empty matrix")
    if isinstance(v, Arr):
        w = alen(v.body)
        if v.v in fv(w):
            return top_scalar("ragged")
        return w
    a = to_arr(v)
    return alen(a.body)


class SOwned(Src):
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr

    def n(self, I):
        return alen(self.arr)

    def get(self, I, i):
        return aget(self.arr, i)


class SZip(Src):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def n(self, I):
        x, y = self.a.n(I), self.b.n(I)
        if x is None or y is None:
            return y if x is None else x
        return pmin(x, y)

    def get(self, I, i):
        return Agg("tuple", [self.a.get(I, i), self.b.get(I, i)])


class SMap(Src):
    __slots__ = ("a", "f")

    def __init__(self, a, f):
        self.a, self.f = a, f

    def n(self, I):
        return self.a.n(I)

    def get(self, I, i):
        return I.apply(self.f, [self.a.get(I, i)])


class SEnum(Src):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def n(self, I):
        return self.a.n(I)

    def get(self, I, i):
        return Agg("tuple", [N(i), self.a.get(I, i)])


class SRev(Src):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def n(self, I):
        return self.a.n(I)

    def get(self, I, i):
        return self.a.get(I, self.a.n(I) - 1 - i)


class STake(Src):
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a, self.k = a, k

    def n(self, I):
        x = self.a.n(I)
        return self.k if x is None else pmin(x, self.k)

    def get(self, I, i):
        return self.a.get(I, i)


class SFix(Src):
    """first k elements, k known not to exceed the length"""
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a, self.k = a, k

    def n(self, I):
        return self.k

    def get(self, I, i):
        return self.a.get(I, i)


class SSkip(Src):
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a, self.k = a, k

    def n(self, I):
        x = self.a.n(I)
        if x is None:
            return None
        d = x - self.k
        return d if prove_ge0(d) else pmax(d, ZERO)

    def get(self, I, i):
        return self.a.get(I, i + self.k)


class SStep(Src):
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a, self.k = a, k

    def n(self, I):
        x = self.a.n(I)
        return None if x is None else fdiv(x + self.k - 1, self.k)

    def get(self, I, i):
        return self.a.get(I, i * self.k)


class SChain(Src):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def n(self, I):
        return self.a.n(I) + self.b.n(I)

    def get(self, I, i):
        na = self.a.n(I)
        c = lt(i, na)
        d = decide(c)
        if d is True:
            return self.a.get(I, i)
        if d is False:
            return self.b.get(I, i - na)
        with assume(c):
            x = self.a.get(I, i)
        with assume(bnot(c)):
            y = self.b.get(I, i - na)
        return vite(c, x, y)


class SCloned(Src):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def n(self, I):
        return self.a.n(I)

    def get(self, I, i):
        return I.read(self.a.get(I, i))


class SChunks(Src):
    __slots__ = ("ref", "w", "mut", "exact")

    def __init__(self, ref, w, mut, exact):
        self.ref, self.w, self.mut, self.exact = ref, w, mut, exact

    def n(self, I):
        t = alen(I.rd(self.ref))
        return fdiv(t, self.w) if self.exact else fdiv(t + self.w - 1, self.w)

    def get(self, I, i):
        t = alen(I.rd(self.ref))
        if self.exact:
            n = self.w
        else:
            n = pmin(self.w, t - i * self.w)
        return Ref(self.ref.cell, self.ref.path + (("sl", i * self.w, n),), self.mut)


class SItChunks(Src):
    """itertools chunks of an iterator"""
    __slots__ = ("a", "w")

    def __init__(self, a, w):
        self.a, self.w = a, w

    def n(self, I):
        return fdiv(self.a.n(I) + self.w - 1, self.w)

    def get(self, I, i):
        n = pmin(self.w, self.a.n(I) - i * self.w)
        return It(SFix(SSkip(self.a, i * self.w), n))


class SDraw(Src):
    __slots__ = ("lo", "hi", "gen", "site")

    def __init__(self, lo, hi, gen, site):
        self.lo, self.hi, self.gen, self.site = lo, hi, gen, site

    def n(self, I):
        return None

    def get(self, I, i):
        return N(atom("draw", N(self.lo), N(self.hi), self.gen, self.site, *(list(I.kstack) + [N(i)])))


class SOnce(Src):
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def n(self, I):
        return ONE

    def get(self, I, i):
        return self.x


def tyname(I, x):
    if isinstance(x, Agg) and isinstance(x.ty, int):
        return I.ty(x.ty).get("path") or ""
    return x.ty if isinstance(x, Agg) and isinstance(x.ty, str) else ""


def mksrc(I, x):
    """value -> (source, position)"""
    if isinstance(x, It):
        if x.pos is ZERO:
            return x.src
        return SSkip(x.src, x.pos)
    if isinstance(x, Agg):
        p = tyname(I, x)
        if p == "std::ops::Range":
            lo, hi = I.num(x.f[0]), I.num(x.f[1])
            n = hi - lo
            return SRange(lo, n if prove_ge0(n) else pmax(n, ZERO))
        if p == "rangeincl":
            n = x.f[1] - x.f[0] + 1
            return SRange(x.f[0], n if prove_ge0(n) else pmax(n, ZERO))
        if p == "std::ops::RangeFrom":
            return SInf(I.num(x.f[0]))
        if p == "intochunks":
            return x.f[0].src
    if isinstance(x, Ref):
        r = I.deref_all(x)
        v = I.read(r)
        if isinstance(v, It):
            raise Unmodelled("iterator by reference")
        if isinstance(v, Agg) and tyname(I, v) == "intochunks":
            return v.f[0].src
        if isinstance(v, (Arr, Lst, Cat, RingC)):
            return SSlice(r, x.mut and r.mut)
        if isinstance(v, Agg) and tyname(I, v) == "std::ops::Range":
            return mksrc(I, v)
        if isinstance(v, Top):
            raise Unmodelled("iterate unknown: %s" % v.why)
    if isinstance(x, (Arr, Lst, Cat)):
        return SOwned(x)
    if isinstance(x, RingC):
        return SOwned(I.ring_rows(x))
    if isinstance(x, Top):
        raise Unmodelled("iterate unknown: %s" % x.why)
    if isinstance(x, En):
        c = x.d.const()
        if c == 1:
            return SOnce(x.pl[1][0])
    raise Unmodelled("iterate %s" % type(x).__name__)


def it(I, x):
    return It(mksrc(I, x))


def clo(I, f):
    if isinstance(f, Ref):
        return f
    return Ref(I.new_cell(f, None, "clo"), (), True)


@model("std::iter::IntoIterator::into_iter", "std::vec::Vec::into_iter", "std::iter::Iterator::into_iter")
def m_into_iter(I, a, cal, ty):
    if isinstance(a[0], It):
        return a[0]
    return it(I, a[0])


@model("std::iter::Iterator::by_ref")
def m_by_ref(I, a, cal, ty):
    return NotImplemented


@model("core::slice::iter", "ndarray::impl_methods::outer_iter", "std::collections::VecDeque::iter")
def m_iter(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    return It(SSlice(Ref(r.cell, r.path, False), False))


@model("core::slice::iter_mut", "ndarray::impl_methods::outer_iter_mut")
def m_iter_mut(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    return It(SSlice(r, True))


@model("ndarray::impl_methods::iter", "ndarray::impl_methods::iter_mut")
def m_nd_iter(I, a, cal, ty):
    mut = cal["orig"].endswith("iter_mut")
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    v = rows(I, I.read(r))
    if isinstance(v, Top):
        return v
    el = aget(v, ZERO) if isinstance(v, Lst) and v.els else (v.body if isinstance(v, Arr) else aget(v, ZERO))
    if isinstance(el, (Arr, Lst, Cat)):
        w = width(I, v)
        one = alen(v) is ONE or equal(alen(v), ONE)[0]
        r = Ref(r.cell, r.path + ((("i", ZERO) if one else ("flat", w)),), r.mut)
    return It(SSlice(r, mut))


@model("ndarray::impl_methods::axis_iter", "ndarray::impl_methods::axis_iter_mut")
def m_axis_iter(I, a, cal, ty):
    mut = cal["orig"].endswith("_mut")
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    if axis_of(I, a[1]) == 0:
        return It(SSlice(r, mut))
    return It(SCols(r, mut))


@model("ndarray::impl_methods::rows", "ndarray::impl_methods::rows_mut")
def m_rows(I, a, cal, ty):
    r = I.deref_all(a[0])
    return It(SSlice(r, cal["orig"].endswith("_mut")))


@model("ndarray::impl_methods::columns", "ndarray::impl_methods::columns_mut")
def m_columns(I, a, cal, ty):
    r = I.deref_all(a[0])
    return It(SCols(r, cal["orig"].endswith("_mut")))


@model("std::iter::Iterator::zip", "itertools::Itertools::zip_eq", "std::iter::zip")
def m_zip(I, a, cal, ty):
    return It(SZip(mksrc(I, a[0]), mksrc(I, a[1])))


@model("std::iter::Iterator::map")
def m_map(I, a, cal, ty):
    return It(SMap(mksrc(I, a[0]), clo(I, a[1])))


@model("std::iter::Iterator::enumerate", "itertools::enumerate")
def m_enum(I, a, cal, ty):
    return It(SEnum(mksrc(I, a[0])))


@model("std::iter::Iterator::rev")
def m_rev(I, a, cal, ty):
    return It(SRev(mksrc(I, a[0])))


@model("std::iter::Iterator::take")
def m_take(I, a, cal, ty):
    return It(STake(mksrc(I, a[0]), I.num(a[1])))


@model("std::iter::Iterator::skip")
def m_skip(I, a, cal, ty):
    return It(SSkip(mksrc(I, a[0]), I.num(a[1])))


@model("std::iter::Iterator::step_by")
def m_step(I, a, cal, ty):
    return It(SStep(mksrc(I, a[0]), I.num(a[1])))


@model("std::iter::Iterator::chain")
def m_chain(I, a, cal, ty):
    return It(SChain(mksrc(I, a[0]), mksrc(I, a[1])))


@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_cloned(I, a, cal, ty):
    return It(SCloned(mksrc(I, a[0])))


@model("std::iter::once")
def m_once(I, a, cal, ty):
    return It(SOnce(a[0]))


@model("std::iter::repeat")
def m_repeat(I, a, cal, ty):
    class SRep(Src):
        __slots__ = ("x",)

        def __init__(self, x):
            self.x = x

        def n(self, I):
            return None

        def get(self, I, i):
            return self.x
    return It(SRep(a[0]))


@model("core::slice::chunks", "core::slice::chunks_exact", "core::slice::chunks_mut", "core::slice::chunks_exact_mut")
def m_chunks(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    return It(SChunks(r, I.num(a[1]), "mut" in cal["orig"], "exact" in cal["orig"]))


@model("itertools::Itertools::chunks")
def m_itchunks(I, a, cal, ty):
    return Agg("intochunks", [It(SItChunks(mksrc(I, a[0]), I.num(a[1])))])


@model("std::iter::Iterator::take_while")
def m_take_while(I, a, cal, ty):
    s = mksrc(I, a[0])
    f = clo(I, a[1])
    k = first_such(I, s, lambda x: bnot(I.boo(I.apply(f, [Ref(I.new_cell(x))]))))
    return It(SFix(s, k))


@model("std::iter::Iterator::filter")
def m_filter(I, a, cal, ty):
    """only its count (and the emptiness that follows from it) is modelled"""
    s = mksrc(I, a[0])
    f = clo(I, a[1])
    n = s.n(I)
    if n is None:
        raise Unmodelled("filter of an endless iterator")
    v = fresh_ix(n)
    I.kstack.append(N(v))
    try:
        with assume(ge0(n - 1 - N(v)), ge0(N(v))):
            c = I.boo(I.apply(f, [Ref(I.new_cell(s.get(I, N(v))))]))
    finally:
        I.kstack.pop()
    k = mk_sum(v, n, b2i(c))

    class SFilter(Src):
        def n(self, I):
            return k

        def get(self, I, i):
            raise Unmodelled("items of a filtered iterator")
    return It(SFilter())


def first_such(I, s, pred):
    """least k < n with pred(item k), else n"""
    n = s.n(I)
    c = n.const() if n is not None else None
    if c is not None and c <= 6:
        conds = []
        for k in range(int(c)):
            conds.append(pred(s.get(I, N(k))))
        r = N(int(c))
        for k in range(int(c) - 1, -1, -1):
            r = ite(conds[k], N(k), r)
        return r
    kap = T.fresh("kf", 0, None if n is None else n - 1).single_atom()
    saved = dict(I.cells)
    I.kstack.append(N(kap))
    try:
        with assume(*([ge0(n - 1 - N(kap))] if n is not None else [])):
            p = pred(s.get(I, N(kap)))
    finally:
        I.kstack.pop()
    for k2, v in saved.items():
        if I.cells.get(k2) is not v:
            raise Unmodelled("predicate with side effects")
    RANGE[kap] = ([ZERO], [])
    T.bump()
    cond = p if n is None else bor(ge0(N(kap) - n), p)
    return mk_first(kap, cond, n)


def count_of(I, s):
    n = s.n(I)
    if n is None:
        raise Unmodelled("infinite iterator")
    return n


@model("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def m_count(I, a, cal, ty):
    x = a[0]
    if isinstance(x, Ref):
        x = I.rd(x)
    return count_of(I, mksrc(I, x))


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::position", "std::iter::Iterator::find")
def m_any(I, a, cal, ty):
    x = I.rd(a[0]) if isinstance(a[0], Ref) else a[0]
    s = mksrc(I, x)
    f = clo(I, a[1])
    o = cal["orig"]
    if o.endswith("all"):
        k = first_such(I, s, lambda y: bnot(I.boo(I.apply(f, [y]))))
        return bnot(lt(k, s.n(I)))
    if o.endswith("find"):
        k = first_such(I, s, lambda y: I.boo(I.apply(f, [Ref(I.new_cell(y))])))
        c = lt(k, s.n(I))
        with assume(c):
            v = s.get(I, k)
        return opt(c, v)
    k = first_such(I, s, lambda y: I.boo(I.apply(f, [y])))
    if o.endswith("position"):
        return opt(lt(k, s.n(I)), k)
    return lt(k, s.n(I))


@model("core::slice::contains")
def m_contains(I, a, cal, ty):
    s = SSlice(I.deref_all(a[0]), False)
    x = I.rd(a[1])
    k = first_such(I, s, lambda y: I.veq(I.rd(y), x))
    return lt(k, s.n(I))


def lid(I, cal):
    return "%s/%s" % (I.where(), cal["orig"].split("::")[-1])


@model("std::iter::Iterator::next")
def m_next(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    if isinstance(v, Agg) and tyname(I, v) == "std::ops::Range":
        v = it(I, v)
    if isinstance(v, Top):
        return v
    if not isinstance(v, It):
        raise Unmodelled("next on %s" % type(v).__name__)
    n = v.src.n(I)
    c = TRUE if n is None else lt(v.pos, n)
    d = decide(c)
    if d is False:
        I.write(r, v)
        return none()
    if d is True:
        x = v.src.get(I, v.pos)
        I.write(r, It(v.src, v.pos + 1))
        return some(x)
    before = I.cells
    I.cells = dict(before)
    nf = len(F.stack)
    push_fact(c)
    x = v.src.get(I, v.pos)
    fs = F.stack[nf:]
    del F.stack[nf:]
    after = I.cells
    I.cells = after
    for k in list(after):
        if k in before and after[k] is not before[k]:
            after[k] = vite(c, after[k], before[k])
    I.write(r, It(v.src, ite(c, v.pos + 1, v.pos)))
    return opt(c, x)


@model("std::iter::Iterator::for_each")
def m_for_each(I, a, cal, ty):
    s = mksrc(I, a[0])
    f = clo(I, a[1])
    n = count_of(I, s)

    def step(k):
        I.apply(f, [s.get(I, k)])
    I.iterate(n, step, lid(I, cal))
    return UNIT


@model("std::iter::Iterator::fold")
def m_fold(I, a, cal, ty):
    s = mksrc(I, a[0])
    f = clo(I, a[2])
    n = count_of(I, s)
    acc = I.new_cell(a[1], None, "acc")

    def step(k):
        x = s.get(I, k)
        I.cells[acc] = I.apply(f, [I.cells[acc], x])
    I.iterate(n, step, lid(I, cal))
    return I.cells[acc]


def reduce_with(I, a, cal, init, op):
    s = mksrc(I, a[0])
    n = count_of(I, s)
    acc = I.new_cell(init, None, "acc")

    def step(k):
        x = I.rd(s.get(I, k))
        I.cells[acc] = op(I.num(I.cells[acc]), I.num(x))
    I.iterate(n, step, lid(I, cal))
    return I.cells[acc]


@model("std::iter::Iterator::sum")
def m_sum(I, a, cal, ty):
    return reduce_with(I, a, cal, ZERO, lambda x, y: x + y)


@model("std::iter::Iterator::product")
def m_product(I, a, cal, ty):
    return reduce_with(I, a, cal, ONE, lambda x, y: x * y)


@model("std::iter::Iterator::min", "std::iter::Iterator::max")
def m_min(I, a, cal, ty):
    s = mksrc(I, a[0])
    n = count_of(I, s)
    c = n.const()
    if c is None or c == 0 or c > 8:
        if not cal["orig"].endswith("min") or not prove_ge0(n - 1):
            raise Unmodelled("min/max over symbolic length")
        v = fresh_ix(n)
        x = s.get(I, N(v))
        if isinstance(x, Ref):
            raise Unmodelled("min of references over symbolic length")
        return some(mk_min(v, n, I.num(x)))
    xs = [s.get(I, N(k)) for k in range(int(c))]
    vs = [I.num(I.rd(x)) for x in xs]
    r = vs[0]
    for v in vs[1:]:
        r = pmin(r, v) if cal["orig"].endswith("min") else pmax(r, v)
    if isinstance(xs[0], Ref):
        return some(Ref(I.new_cell(r)))
    return some(r)


@model("std::iter::Iterator::collect", "itertools::Itertools::collect_vec", "std::iter::FromIterator::from_iter")
def m_collect(I, a, cal, ty):
    if ty is not None and cal["orig"].endswith("collect"):
        t = I.ty(ty)
        if t["k"] == "adt" and t["path"] not in ("std::vec::Vec", "std::boxed::Box"):
            return NotImplemented
    s = mksrc(I, a[0])
    n = count_of(I, s)
    out = I.iterate(n, lambda k: s.get(I, k), lid(I, cal))
    c = n.const()
    if c == 0:
        return Lst([])
    return mk_arr(n, lambda k: out(k))


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice")
def m_extend(I, a, cal, ty):
    s = mksrc(I, a[1])
    n = count_of(I, s)
    out = I.iterate(n, lambda k: I.rd(s.get(I, k)), lid(I, cal))
    r = I.deref_all(a[0])
    if n.const() == 0:
        return UNIT
    new = mk_arr(n, lambda k: out(k))
    I.write(r, cat(I.read(r), new))
    return UNIT


@model("std::iter::Iterator::last")
def m_last_it(I, a, cal, ty):
    s = mksrc(I, a[0])
    n = s.n(I)
    return opt(ge0(n - 1), s.get(I, n - 1))


@model("std::iter::Iterator::nth")
def m_nth(I, a, cal, ty):
    return NotImplemented


# ================================================================== vectors
def cat(a, b):
    if isinstance(a, Lst) and isinstance(b, Lst):
        return Lst(a.els + b.els, a.ety)
    ps = []
    for x in (a, b):
        for p in (x.parts if isinstance(x, Cat) else (x,)):
            if isinstance(p, Lst) and not p.els:
                continue
            if ps and isinstance(ps[-1], Lst) and isinstance(p, Lst):
                ps[-1] = Lst(ps[-1].els + p.els, p.ety)
            else:
                ps.append(p)
    if len(ps) == 1:
        return ps[0]
    return Cat(ps)


@model("std::vec::Vec::push")
def m_push(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    if isinstance(v, Top):
        return UNIT
    I.write(r, cat(v, Lst([a[1]])))
    return UNIT


@model("std::vec::Vec::pop")
def m_pop(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    n = alen(v)
    require_sym = ge0(n - 1)
    if decide(require_sym) is False:
        return none()
    x = aget(v, n - 1)
    I.write(r, aslice(v, ZERO, n - 1))
    return opt(require_sym, x)


@model("std::vec::Vec::truncate")
def m_truncate(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    I.write(r, aslice(v, ZERO, pmin(alen(v), I.num(a[1]))))
    return UNIT


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::default::Default::default[Vec]")
def m_vnew(I, a, cal, ty):
    return Lst([])


@model("std::vec::from_elem")
def m_from_elem(I, a, cal, ty):
    x = a[0]
    n = I.num(a[1])
    return mk_arr(n, lambda i: x)


@model("std::vec::Vec::len", "core::slice::len")
def m_len(I, a, cal, ty):
    v = rows(I, I.rd(a[0]))
    if isinstance(v, Top):
        return top_scalar(v.why)
    return alen(v)


@model("std::vec::Vec::is_empty", "core::slice::is_empty")
def m_vis_empty(I, a, cal, ty):
    return eq(m_len(I, a, cal, ty), ZERO)


@model("ndarray::impl_methods::len")
def m_ndlen(I, a, cal, ty):
    v = rows(I, I.rd(a[0]))
    n = alen(v)
    el = v.body if isinstance(v, Arr) else (aget(v, ZERO))
    if isinstance(el, (Arr, Lst, Cat)):
        return n * width(I, v)
    return n


@model("ndarray::impl_methods::nrows", "ndarray::impl_2d::nrows")
def m_nrows(I, a, cal, ty):
    return alen(rows(I, I.rd(a[0])))


@model("ndarray::impl_methods::ncols", "ndarray::impl_2d::ncols")
def m_ncols(I, a, cal, ty):
    return width(I, rows(I, I.rd(a[0])))


@model("ndarray::impl_methods::is_empty")
def m_ndempty(I, a, cal, ty):
    return eq(m_ndlen(I, a, cal, ty), ZERO)


IDENT_REF = ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
             "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "core::slice::as_ref", "std::convert::AsMut::as_mut",
             "ndarray::impl_methods::view", "ndarray::impl_methods::view_mut", "std::boxed::Box::as_ref", "std::boxed::Box::as_mut")


@model(*IDENT_REF)
def m_identref(I, a, cal, ty):
    r = I.deref_all(a[0])
    return r


@model("std::vec::Vec::into_boxed_slice", "std::sync::Arc::new", "std::boxed::Box::new", "core::slice::into_vec", "std::slice::into_vec",
       "std::convert::identity", "std::mem::drop", "std::hint::black_box", "std::rc::Rc::new")
def m_ident(I, a, cal, ty):
    return a[0]


@model("std::mem::forget")
def m_forget(I, a, cal, ty):
    return UNIT


@model("std::slice::to_vec", "std::borrow::ToOwned::to_owned", "ndarray::impl_methods::to_owned", "ndarray::impl_methods::to_vec",
       "core::slice::to_vec")
def m_to_vec(I, a, cal, ty):
    return I.rd(a[0])


@model("std::clone::Clone::clone")
def m_clone(I, a, cal, ty):
    r = a[0]
    if isinstance(r, Ref):
        v = I.read(r)
        if isinstance(v, Ref):
            # clone of &T (a copy of the reference) or of an Arc-like value behind a reference
            t = I.ty(ty) if ty is not None else None
            if t is not None and t["k"] in ("ref", "ptr"):
                return v
            return I.rd(v)
        return v
    return r


@model("std::clone::Clone::clone_from")
def m_clone_from(I, a, cal, ty):
    I.write(I.deref_all(a[0]), I.rd(a[1]))
    return UNIT


@model("std::cmp::PartialEq::eq")
def m_eq(I, a, cal, ty):
    return I.veq(I.rd(a[0]), I.rd(a[1]))


@model("std::cmp::PartialEq::ne")
def m_ne(I, a, cal, ty):
    return bnot(I.veq(I.rd(a[0]), I.rd(a[1])))


@model("std::cmp::PartialOrd::ge", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::lt")
def m_cmp(I, a, cal, ty):
    x, y = I.num(I.rd(a[0])), I.num(I.rd(a[1]))
    o = cal["orig"][-2:]
    return {"ge": le(y, x), "gt": lt(y, x), "le": le(x, y), "lt": lt(x, y)}[o]


@model("std::sync::Arc::ptr_eq")
def m_ptr_eq(I, a, cal, ty):
    x, y = I.rd(a[0]), I.rd(a[1])
    e = I.veq(x, y)
    if e is FALSE:
        return FALSE
    return band(e, bsym("ptreq", frozenset((str(vkey(x)), str(vkey(y))))))


@model("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min")
def m_maxmin(I, a, cal, ty):
    x, y = I.num(a[0]), I.num(a[1])
    return pmax(x, y) if cal["orig"].endswith("max") else pmin(x, y)


@model("std::ptr::mut_ptr::add", "std::ptr::const_ptr::add")
def m_ptr_add(I, a, cal, ty):
    p = a[0]
    k = I.num(a[1])
    if isinstance(p, Ref):
        if p.path and p.path[-1][0] == "i" and len(p.path[-1]) == 3:
            q = p.path[-1][1] + k
        else:
            p = Ref(p.cell, p.path + (("i", ZERO, "ptr"),), p.mut)
            q = k
        base = I.read(Ref(p.cell, p.path[:-1]))
        n = alen(base) if isinstance(base, (Arr, Lst, Cat)) else None
        if n is not None:
            c = band(ge0(q), ge0(n - 1 - q))
            I.obl.append(("unsafe-bounds", I.where(), decide(c) is True, ("ptr.add", c, None, tuple(F.stack))))
        return Ref(p.cell, p.path[:-1] + (("i", q, "ptr"),), p.mut)
    raise Unmodelled("pointer arithmetic")


@model("core::slice::as_mut_ptr", "core::slice::as_ptr")
def m_as_ptr(I, a, cal, ty):
    r = I.deref_all(a[0])
    return Ref(r.cell, r.path + (("i", ZERO, "ptr"),), r.mut)


@model("core::slice::get_unchecked", "core::slice::get_unchecked_mut")
def m_get_unchecked(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    if isinstance(v, Top):
        return v
    q = I.num(a[1])
    n = alen(v)
    c = band(ge0(q), ge0(n - 1 - q))
    I.obl.append(("unsafe-bounds", I.where(), decide(c) is True, ("get_unchecked", c, None, tuple(F.stack))))
    return Ref(r.cell, r.path + (("i", q),), r.mut)


@model("core::slice::get", "core::slice::get_mut", "ndarray::impl_methods::get", "ndarray::impl_methods::get_mut")
def m_get(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = rows(I, I.read(r))
    path, c = index_path(I, v, a[1])
    if path is None:
        return NotImplemented
    return opt(c, Ref(r.cell, r.path + path, r.mut))


@model("core::slice::last", "core::slice::first", "core::slice::last_mut", "core::slice::first_mut")
def m_last(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    if isinstance(v, Top):
        return v
    n = alen(v)
    i = n - 1 if "last" in cal["orig"] else ZERO
    return opt(ge0(n - 1), Ref(r.cell, r.path + (("i", i),), r.mut))


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def m_copy_from_slice(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    w = I.rd(a[1])
    if isinstance(v, Top) or isinstance(w, Top):
        I.write(r, w if isinstance(w, Top) else v)
        return UNIT
    require(I, eq(alen(v), alen(w)), "copy_from_slice length")
    I.write(r, w)
    return UNIT


@model("core::slice::fill")
def m_fill(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    x = a[1]
    I.write(r, mk_arr(alen(v), lambda i: x))
    return UNIT


@model("core::slice::swap")
def m_swap(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    i, j = I.num(a[1]), I.num(a[2])
    x, y = aget(v, i), aget(v, j)
    I.write(r, aset(aset(v, i, y), j, x))
    return UNIT


@model("std::mem::swap")
def m_mswap(I, a, cal, ty):
    x, y = I.deref_all(a[0]), I.deref_all(a[1])
    u, w = I.read(x), I.read(y)
    I.write(x, w)
    I.write(y, u)
    return UNIT


@model("std::mem::replace")
def m_replace(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    I.write(r, a[1])
    return v


@model("std::mem::take")
def m_mtake(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    if isinstance(v, (Arr, Lst, Cat)):
        I.write(r, Lst([]))
        return v
    if isinstance(v, Poly):
        I.write(r, ZERO)
        return v
    return NotImplemented


@model("core::slice::split_at", "core::slice::split_at_mut")
def m_ssplit(I, a, cal, ty):
    r = I.deref_all(a[0])
    n = alen(I.read(r))
    k = I.num(a[1])
    require(I, ge0(n - k), "split_at")
    return Agg("tuple", [Ref(r.cell, r.path + (("sl", ZERO, k),), r.mut), Ref(r.cell, r.path + (("sl", k, n - k),), r.mut)])


def index_path(I, v, i):
    """(path, in-range condition) of an index expression"""
    i = I.rd(i) if isinstance(i, Ref) else i
    if isinstance(v, Top):
        return None, None
    n = alen(v)
    if isinstance(i, Poly):
        return (("i", i),), band(ge0(i), ge0(n - 1 - i))
    if isinstance(i, Lst) and len(i.els) == 2:
        a, b = I.num(i.els[0]), I.num(i.els[1])
        w = width(I, v)
        return (("i", a), ("i", b)), band(ge0(a), ge0(n - 1 - a), ge0(b), ge0(w - 1 - b))
    if isinstance(i, Agg):
        p = tyname(I, i)
        if p == "tuple" and len(i.f) == 2:
            a, b = I.num(i.f[0]), I.num(i.f[1])
            w = width(I, v)
            return (("i", a), ("i", b)), band(ge0(n - 1 - a), ge0(w - 1 - b))
        if p == "std::ops::RangeTo":
            e = I.num(i.f[0])
            return (("sl", ZERO, e),), ge0(n - e)
        if p == "std::ops::RangeFrom":
            b = I.num(i.f[0])
            return (("sl", b, n - b),), ge0(n - b)
        if p == "std::ops::Range":
            b, e = I.num(i.f[0]), I.num(i.f[1])
            return (("sl", b, e - b),), band(ge0(e - b), ge0(n - e))
        if p == "std::ops::RangeFull":
            return (), TRUE
        if p == "rangeincl":
            b, e = i.f[0], i.f[1]
            return (("sl", b, e - b + 1),), band(ge0(e - b + 1), ge0(n - e - 1))
        if p == "std::ops::RangeToInclusive":
            e = I.num(i.f[0]) + 1
            return (("sl", ZERO, e),), ge0(n - e)
    return None, None


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    v = I.read(r)
    if isinstance(v, MapV):
        v = map_lookup(I, v, a[1])
        if v is NotImplemented:
            return NotImplemented
        if v is None:
            raise Diverge()
        return Ref(I.new_cell(v))
    v = rows(I, v)
    path, c = index_path(I, v, a[1])
    if path is None:
        if isinstance(v, Top):
            return v
        return Top("index")
    if c is not TRUE:
        require(I, c, "bounds")
    return Ref(r.cell, r.path + path, r.mut)


# ------------------------------------------------------------------ ndarray
@model("ndarray::SliceInfo::new_unchecked")
def m_sliceinfo(I, a, cal, ty):
    return a[0]


@model("ndarray::SliceNextDim::next_in_dim", "ndarray::SliceNextDim::next_out_dim")
def m_nextdim(I, a, cal, ty):
    return UNIT


def m_sie(kind):
    def f(I, a, cal, ty):
        x = a[0]
        if kind == "full":
            return Agg("sie:full", [])
        if kind == "idx":
            return Agg("sie:idx", [I.num(x)])
        if kind == "from":
            return Agg("sie:from", [I.num(x.f[0])])
        if kind == "to":
            return Agg("sie:to", [I.num(x.f[0])])
        return Agg("sie:range", [I.num(x.f[0]), I.num(x.f[1])])
    return f


@model("ndarray::impl_methods::slice", "ndarray::impl_methods::slice_mut")
def m_slice(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    info = I.rd(a[1])
    if not isinstance(info, Lst):
        return Top("slice info")
    v = rows(I, I.read(r))
    if isinstance(v, Top):
        return v
    els = [I.rd(e) for e in info.els]
    if len(els) > 2:
        return Top("3-d slice")
    path = []
    n = alen(v)
    e = els[0]
    onerow = False
    k = e.ty
    if k == "sie:idx":
        require(I, ge0(n - 1 - e.f[0]), "bounds")
        path.append(("i", e.f[0]))
        onerow = True
    elif k == "sie:from":
        path.append(("sl", e.f[0], n - e.f[0]))
    elif k == "sie:to":
        path.append(("sl", ZERO, e.f[0]))
    elif k == "sie:range":
        path.append(("sl", e.f[0], e.f[1] - e.f[0]))
    if len(els) == 2:
        e = els[1]
        k = e.ty
        w = width(I, v)
        if k == "sie:idx":
            require(I, ge0(w - 1 - e.f[0]), "bounds")
            path.append(("i", e.f[0]) if onerow else ("col", e.f[0]))
        elif k == "sie:from":
            path.append(("sl" if onerow else "csl", e.f[0], w - e.f[0]))
        elif k == "sie:to":
            path.append(("sl" if onerow else "csl", ZERO, e.f[0]))
        elif k == "sie:range":
            path.append(("sl" if onerow else "csl", e.f[0], e.f[1] - e.f[0]))
    return Ref(r.cell, r.path + tuple(path), r.mut and cal["orig"].endswith("_mut"))


@model("ndarray::impl_methods::assign")
def m_assign(I, a, cal, ty):
    r = I.deref_all(a[0])
    I.write(r, rows(I, I.rd(a[1])))
    return UNIT


@model("ndarray::impl_methods::index_axis", "ndarray::impl_methods::index_axis_mut", "ndarray::impl_methods::row", "ndarray::impl_2d::row", "ndarray::impl_methods::row_mut", "ndarray::impl_2d::row_mut",
       "ndarray::impl_methods::column", "ndarray::impl_2d::column", "ndarray::impl_methods::column_mut", "ndarray::impl_2d::column_mut")
def m_index_axis(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return r
    o = cal["orig"]
    if "index_axis" in o:
        ax, i = axis_of(I, a[1]), I.num(a[2])
    else:
        ax, i = (0 if "row" in o else 1), I.num(a[1])
    return Ref(r.cell, r.path + ((("i", i),) if ax == 0 else (("col", i),)), r.mut)


@model("ndarray::impl_methods::as_slice", "ndarray::impl_methods::as_slice_mut")
def m_as_slice(I, a, cal, ty):
    r = I.deref_all(a[0])
    if isinstance(r, Top):
        return some(r)
    if r.path and r.path[-1][0] in ("col",):
        return none()
    v = rows(I, I.read(r))
    if isinstance(v, Arr) and isinstance(v.body, (Arr, Lst)):
        return some(Ref(r.cell, r.path + (("flat", width(I, v)),), r.mut))
    return some(r)


@model("ndarray::impl_methods::remove_index")
def m_remove_index(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = rows(I, I.read(r))
    ax, k = axis_of(I, a[1]), I.num(a[2])
    if ax != 0:
        return NotImplemented
    n = alen(v)
    require(I, ge0(n - 1 - k), "bounds")
    if k is n - 1:
        I.write(r, aslice(v, ZERO, n - 1))
    else:
        vv = fresh_ix(n - 1)
        c = lt(N(vv), k)
        I.write(r, Arr(n - 1, vv, vite(c, aget(v, N(vv)), aget(v, N(vv) + 1))))
    return UNIT


@model("ndarray::impl_views::splitting::split_at")
def m_split_at(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = rows(I, I.read(r))
    ax, k = axis_of(I, a[1]), I.num(a[2])
    if ax != 0:
        return NotImplemented
    n = alen(v)
    require(I, ge0(n - k), "bounds")
    return Agg("tuple", [Ref(r.cell, r.path + (("sl", ZERO, k),), r.mut), Ref(r.cell, r.path + (("sl", k, n - k),), r.mut)])


@model("ndarray::impl_constructors::zeros")
def m_zeros(I, a, cal, ty):
    s = a[0]
    if isinstance(s, Agg):
        d = [I.num(x) for x in s.f]
    elif isinstance(s, Lst):
        d = [I.num(x) for x in s.els]
    else:
        d = [I.num(s)]

    def build(k):
        if k == len(d):
            return ZERO
        return mk_arr(d[k], lambda i: build(k + 1))
    return build(0)


@model("ndarray::impl_constructors::from_vec")
def m_fromvec(I, a, cal, ty):
    return a[0]


# ------------------------------------------------------------------ options
def as_en(I, x):
    x = I.expand(x)
    return x


@model("std::option::Option::unwrap", "std::result::Result::unwrap", "std::option::Option::expect", "std::result::Result::expect")
def m_unwrap(I, a, cal, ty):
    x = as_en(I, a[0])
    if isinstance(x, Top):
        return x
    if not isinstance(x, En):
        raise Unmodelled("unwrap of %s" % type(x).__name__)
    ok = 1 if "Option" in cal["orig"] else 0
    c = eq(x.d, N(ok))
    d = decide(c)
    I.obl.append(("unwrap", I.where(), d is True, ("unwrap", c, None, tuple(F.stack))))
    if d is False or ok not in x.pl:
        raise Diverge()
    if d is None:
        push_fact(c)
    return x.pl[ok][0]


@model("std::option::Option::is_some", "std::option::Option::is_none")
def m_is_some(I, a, cal, ty):
    x = as_en(I, I.rd(a[0]))
    if not isinstance(x, En):
        return bsym("top", "is_some", next(VV._topc))
    c = eq(x.d, ONE)
    return c if cal["orig"].endswith("some") else bnot(c)


@model("std::option::Option::as_ref", "std::option::Option::as_mut")
def m_as_ref(I, a, cal, ty):
    r = I.deref_all(a[0])
    x = as_en(I, I.read(r)) if isinstance(r, Ref) else as_en(I, r)
    if not isinstance(x, En):
        return x if isinstance(x, Top) else Top("as_ref")
    if 1 not in x.pl:
        return none()
    if isinstance(r, Ref):
        return En(None, x.d, {1: (Ref(r.cell, r.path + (("vf", 1, 0),), r.mut),)})
    return En(None, x.d, {1: (Ref(I.new_cell(x.pl[1][0])),)})


@model("std::option::Option::cloned", "std::option::Option::copied")
def m_ocloned(I, a, cal, ty):
    x = as_en(I, a[0])
    if not isinstance(x, En):
        return x
    return En(None, x.d, {1: (I.read(x.pl[1][0]),)} if 1 in x.pl else {})


@model("std::option::Option::map")
def m_omap(I, a, cal, ty):
    x = as_en(I, a[0])
    if not isinstance(x, En):
        return x
    if 1 not in x.pl or x.d.const() == 0:
        return none()
    c = eq(x.d, ONE)
    with assume(c):
        v = I.apply(a[1], [x.pl[1][0]])
    return En(None, x.d, {1: (v,)})


@model("std::option::Option::unwrap_or", "std::option::Option::unwrap_or_default")
def m_unwrap_or(I, a, cal, ty):
    x = as_en(I, a[0])
    if not isinstance(x, En):
        return x
    d = a[1] if len(a) > 1 else ZERO
    if 1 not in x.pl:
        return d
    return vite(eq(x.d, ONE), x.pl[1][0], d)


@model("std::ops::Try::branch")
def m_branch(I, a, cal, ty):
    x = as_en(I, a[0])
    if not isinstance(x, En):
        return x
    # ControlFlow: 0 = Continue(v), 1 = Break(residual)
    pl = {1: (none(),)}
    if 1 in x.pl:
        pl[0] = (x.pl[1][0],)
    return En(None, ONE - x.d, pl)


@model("std::ops::FromResidual::from_residual")
def m_residual(I, a, cal, ty):
    return none()


# ------------------------------------------------------------------ integers
def impl_ty(cal):
    m = re.search(r"<impl (u\d+|usize|i\d+|isize)>", cal["orig"] or "") or re.search(r"<(u\d+|usize|i\d+|isize) as", cal.get("res") or "")
    if m:
        t = m.group(1)
        w = 64 if t in ("usize", "isize") else int(t[1:])
        return t[0] == "i", w
    return False, 64


@model("core::num::leading_zeros", "num_traits::PrimInt::leading_zeros")
def m_lz(I, a, cal, ty):
    _, w = impl_ty(cal)
    return N(w) - bitlen(I.num(a[0]))


@model("core::num::ilog2", "core::num::checked_ilog2")
def m_ilog2(I, a, cal, ty):
    return bitlen(I.num(a[0])) - 1


@model("core::num::count_ones")
def m_popcount(I, a, cal, ty):
    return popcount(I.num(a[0]))


@model("core::num::trailing_zeros")
def m_tz(I, a, cal, ty):
    x = I.num(a[0])
    if T._is_pow2(x):
        return bitlen(x) - 1
    return top_scalar("trailing_zeros")


@model("core::num::reverse_bits")
def m_rev_bits(I, a, cal, ty):
    _, w = impl_ty(cal)
    return brv(I.num(a[0]), N(w))


@model("core::num::is_power_of_two")
def m_ispow2(I, a, cal, ty):
    x = I.num(a[0])
    if T._is_pow2(x):
        return TRUE
    if x.const() is not None:
        c = x.const()
        return TRUE if c > 0 and int(c) & (int(c) - 1) == 0 else FALSE
    return bsym("ispow2", x)


@model("core::num::next_power_of_two")
def m_npow2(I, a, cal, ty):
    x = I.num(a[0])
    return ite(le(x, ONE), ONE, pow2(bitlen(x - 1)))


@model("core::num::pow")
def m_pow(I, a, cal, ty):
    return pw(I.num(a[0]), I.num(a[1]))


@model("core::num::abs_diff")
def m_absdiff(I, a, cal, ty):
    x, y = I.num(a[0]), I.num(a[1])
    return ite(le(y, x), x - y, y - x)


@model("core::num::div_ceil")
def m_divceil(I, a, cal, ty):
    x, y = I.num(a[0]), I.num(a[1])
    return fdiv(x + y - 1, y)


def _wrapmodel(op):
    def f(I, a, cal, ty):
        s, w = impl_ty(cal)
        x, y = I.num(a[0]), I.num(a[1])
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]()
        if s:
            return top_scalar("signed wrapping")
        return wrapu(r, w)
    return f


def _overmodel(op):
    def f(I, a, cal, ty):
        s, w = impl_ty(cal)
        x, y = I.num(a[0]), I.num(a[1])
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]()
        if s:
            return Top("signed overflowing")
        c = ge0(-r - 1) if op == "sub" else ge0(r - (1 << w))
        return Agg("tuple", [wrapu(r, w), c])
    return f


for _o in ("add", "sub", "mul"):
    M["core::num::wrapping_" + _o] = _wrapmodel(_o)
    M["core::num::overflowing_" + _o] = _overmodel(_o)


@model("num_traits::One::one")
def m_one(I, a, cal, ty):
    return ONE


@model("num_traits::Zero::zero")
def m_zero(I, a, cal, ty):
    return ZERO


@model("num_traits::One::is_one")
def m_is_one(I, a, cal, ty):
    return eq(I.num(I.rd(a[0])), ONE)


@model("num_traits::Zero::is_zero")
def m_is_zero(I, a, cal, ty):
    return eq(I.num(I.rd(a[0])), ZERO)


@model("num_traits::FromPrimitive::from_u64", "num_traits::FromPrimitive::from_usize", "num_traits::FromPrimitive::from_u128", "num_traits::FromPrimitive::from_u32")
def m_fromprim(I, a, cal, ty):
    return some(I.num(a[0]))


def _toprim(w):
    def f(I, a, cal, ty):
        x = I.num(I.rd(a[0]))
        return opt(band(ge0(x), ge0(N((1 << w) - 1) - x)), x)
    return f


for _n, _w in (("u64", 64), ("u128", 128), ("usize", 64), ("u32", 32), ("i64", 63)):
    M["num_traits::ToPrimitive::to_" + _n] = _toprim(_w)


@model("num_bigint::BigUint::bits", "num_bigint_dig::BigUint::bits")
def m_bits(I, a, cal, ty):
    return bitlen(I.num(I.rd(a[0])))


@model("num_bigint_dig::BigInt::to_biguint", "num_bigint::BigInt::to_biguint")
def m_to_biguint(I, a, cal, ty):
    x = I.num(I.rd(a[0]))
    return opt(ge0(x), x)


@model("num_bigint_dig::BigUint::to_bytes_le", "num_bigint::BigUint::to_bytes_le")
def m_to_bytes(I, a, cal, ty):
    return Agg("bytes_le", [I.num(I.rd(a[0]))])


@model("num_bigint::BigUint::from_bytes_le", "num_bigint_dig::BigUint::from_bytes_le")
def m_from_bytes(I, a, cal, ty):
    x = I.rd(a[0])
    if isinstance(x, Agg) and x.ty == "bytes_le":
        return x.f[0]
    return Top("bytes")


@model("num_bigint_dig::ModInverse::mod_inverse")
def m_modinv(I, a, cal, ty):
    x, p = I.num(I.rd(a[0])), I.num(I.rd(a[1]))
    r = inv(x, p)
    return some(r)


@model("num_bigint_dig::prime::probably_prime")
def m_pp(I, a, cal, ty):
    return bsym("probably_prime", I.num(I.rd(a[0])), I.num(a[1]))


OPS = {"std::ops::Add::add": "Add", "std::ops::Sub::sub": "Sub", "std::ops::Mul::mul": "Mul", "std::ops::Div::div": "Div",
       "std::ops::Rem::rem": "Rem", "std::ops::BitAnd::bitand": "BitAnd", "std::ops::BitOr::bitor": "BitOr", "std::ops::BitXor::bitxor": "BitXor",
       "std::ops::Shl::shl": "Shl", "std::ops::Shr::shr": "Shr"}
ASG = {"std::ops::AddAssign::add_assign": "Add", "std::ops::SubAssign::sub_assign": "Sub", "std::ops::MulAssign::mul_assign": "Mul",
       "std::ops::DivAssign::div_assign": "Div", "std::ops::RemAssign::rem_assign": "Rem", "std::ops::ShrAssign::shr_assign": "Shr",
       "std::ops::ShlAssign::shl_assign": "Shl", "std::ops::BitAndAssign::bitand_assign": "BitAnd"}


def arith(I, op, x, y, big, cal, w=64):
    x, y = I.num(I.rd(x)), I.num(I.rd(y))
    if op == "Add":
        return x + y
    if op == "Sub":
        if big:
            require(I, ge0(x - y), "biguint underflow")
        return x - y
    if op == "Mul":
        return x * y
    if op == "Div":
        return fdiv(x, y)
    if op == "Rem":
        return mod(x, y)
    if op == "Shl":
        return x * pow2(y) if big else wrapu(x * pow2(y), w)
    if op == "Shr":
        return fdiv(x, pow2(y))
    if op == "BitAnd":
        return bitand(x, y)
    if op == "BitOr":
        return bitor(x, y)
    return bitxor(x, y)


def is_big(cal):
    return "BigUint" in str(cal.get("res")) or "BigInt" in str(cal.get("res")) or "crypto_bigint" in str(cal.get("res"))


def _opmodel(op):
    def f(I, a, cal, ty):
        big = is_big(cal)
        res = cal.get("res") or ""
        if not big and not re.search(r"<&?(u\d+|usize|i\d+) as", res):
            for x in a:
                if not isinstance(I.rd(x), (Poly, Bl)):
                    return NotImplemented
        if ty is not None and not big and I.int_info(ty):
            return I.binop(op, I.rd(a[0]), I.rd(a[1]), ty)
        return arith(I, op, a[0], a[1], big, cal)
    return f


def _asgmodel(op):
    def f(I, a, cal, ty):
        r = I.deref_all(a[0])
        v = I.read(r)
        if not isinstance(v, (Poly, Bl)):
            return NotImplemented
        I.write(r, arith(I, op, v, a[1], is_big(cal), cal))
        return UNIT
    return f


for _k, _v in OPS.items():
    M[_k] = _opmodel(_v)
for _k, _v in ASG.items():
    M[_k] = _asgmodel(_v)


@model("std::ops::Neg::neg", "std::ops::Not::not")
def m_neg(I, a, cal, ty):
    x = I.rd(a[0])
    if isinstance(x, Bl):
        return bnot(x)
    if isinstance(x, Poly) and cal["orig"].endswith("neg"):
        return -x
    return NotImplemented


@model("crypto_bigint::UInt::from_words")
def m_from_words(I, a, cal, ty):
    v = I.rd(a[0])
    r = ZERO
    for k in range(int(alen(v).const())):
        r = r + I.num(aget(v, k)) * (1 << (64 * k))
    return r


@model("crypto_bigint::uint::add::wrapping_add")
def m_uadd(I, a, cal, ty):
    return wrapu(I.num(I.rd(a[0])) + I.num(I.rd(a[1])), 256)


@model("std::ops::RangeInclusive::new")
def m_rincl(I, a, cal, ty):
    return Agg("rangeincl", [I.num(a[0]), I.num(a[1])])


@model("std::ops::RangeInclusive::contains", "std::ops::Range::contains")
def m_rcontains(I, a, cal, ty):
    r = I.rd(a[0])
    x = I.num(I.rd(a[1]))
    if "Inclusive" in cal["orig"]:
        return band(ge0(x - I.num(r.f[0])), ge0(I.num(r.f[1]) - x))
    return band(ge0(x - I.num(r.f[0])), ge0(I.num(r.f[1]) - 1 - x))


@model("std::mem::size_of")
def m_size_of(I, a, cal, ty):
    args = cal.get("args") or []
    if args:
        t = I.ty(args[0])
        if t["k"] in ("uint", "int"):
            return N(t["w"] // 8)
    return top_scalar("size_of")


@model("std::convert::Into::into")
def m_into(I, a, cal, ty):
    x = a[0]
    if ty is not None:
        t = I.ty(ty)
        if t["k"] in ("uint", "int"):
            return I.num(x)
        if t["k"] == "adt" and t["path"] == "ndarray::ArrayBase":
            return I.deref_all(x) if isinstance(x, Ref) else x
    return x


@model("std::convert::From::from")
def m_from(I, a, cal, ty):
    res = cal.get("res") or ""
    if "SliceInfoElem" in res:
        for k, n in (("RangeFull", "full"), ("RangeFrom", "from"), ("RangeTo", "to"), ("Range<", "range"), ("From<usize>", "idx"), ("From<isize>", "idx"), ("From<i32>", "idx")):
            if k in res:
                return m_sie(n)(I, a, cal, ty)
    if "Uniform" in res:
        r = a[0]
        return Agg("uniform", [I.num(r.f[0]), I.num(r.f[1]) - 1])
    if "crypto_bigint" in res:
        x = I.num(a[0])
        return Lst([mod(fdiv(x, N(1 << (64 * k))), N(1 << 64)) for k in range(4)])
    if "BigUint" in res or "BigInt" in res:
        return I.num(I.rd(a[0]))
    if "GenericArray" in res:
        return a[0]
    if "From<T> for T" in res or "<T as std::convert::From<T>>" in res:
        return a[0]
    if ty is not None and I.int_info(ty):
        return I.num(a[0])
    return NotImplemented


@model("std::default::Default::default")
def m_default(I, a, cal, ty):
    if ty is not None:
        t = I.ty(ty)
        if t["k"] == "array" and t["len"] is not None:
            return mk_arr(N(t["len"]), lambda i: ZERO)
        if t["k"] in ("uint", "int"):
            return ZERO
        if t["k"] == "adt" and t["path"] == "std::vec::Vec":
            return Lst([])
    return NotImplemented


# ------------------------------------------------------------------ vec! support
@model("std::boxed::Box::new_uninit")
def m_new_uninit(I, a, cal, ty):
    # Box<MaybeUninit<[T; N]>>: initialised through a pointer write
    return Ref(I.new_cell(UNINIT, None, "box"), (), True)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_assume_init(I, a, cal, ty):
    v = I.rd(a[0])
    if isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


# ------------------------------------------------------------------ maps
@model("std::collections::HashMap::new", "std::collections::BTreeMap::new", "std::collections::HashMap::with_capacity")
def m_hnew(I, a, cal, ty):
    return MapV([])


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def m_hinsert(I, a, cal, ty):
    r = I.deref_all(a[0])
    m = I.read(r)
    if not isinstance(m, MapV):
        return NotImplemented
    I.write(r, MapV(m.ins + ((a[1], a[2], TRUE, None, None),), m.base))
    return Top("previous map entry")


def map_lookup(I, m, key):
    """value inserted last under the key, None if absent, NotImplemented if not decidable"""
    key = I.rd(key) if isinstance(key, Ref) else key
    if not isinstance(m, MapV) or m.base is not None or not isinstance(key, Poly):
        return NotImplemented
    for k, v, g, ix, cnt in reversed(m.ins):
        k = I.rd(k) if isinstance(k, Ref) else k
        if ix is not None or g is not TRUE or not isinstance(k, Poly):
            return NotImplemented
        d = decide(eq(k, key))
        if d is True:
            return v
        if d is None:
            return NotImplemented
    return None


@model("std::collections::HashMap::get", "std::collections::BTreeMap::get")
def m_hget(I, a, cal, ty):
    v = map_lookup(I, I.rd(a[0]), a[1])
    if v is NotImplemented:
        return NotImplemented
    if v is None:
        return En(ty, ZERO, {0: (), 1: (Top("absent"),)})
    return En(ty, ONE, {0: (), 1: (Ref(I.new_cell(v)),)})


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def m_hcontains(I, a, cal, ty):
    v = map_lookup(I, I.rd(a[0]), a[1])
    if v is NotImplemented:
        return NotImplemented
    return FALSE if v is None else TRUE


# ------------------------------------------------------------------ randomness
def site(I):
    return "|".join(I.sites)


def _drawbounds(a):
    return [a.args[0]], [a.args[1]]


BOUND_HOOK["draw"] = _drawbounds


def draw(I, lo, hi, gen, st=None):
    return N(atom("draw", N(lo), N(hi), gen, st or site(I), *I.kstack))


def gen_of(I, r):
    v = I.rd(r)
    if isinstance(v, Ob):
        return v.key
    if isinstance(v, Agg) and v.ty == "rng":
        return v.f[0].key
    return atom("rng", "unknown", next(VV._topc))


@model("rand::thread_rng", "rand::rngs::thread::thread_rng")
def m_thread_rng(I, a, cal, ty):
    return Agg("rng", [Ob(atom("rng", "thread"), ty)])


@model("rand::SeedableRng::from_seed")
def m_from_seed(I, a, cal, ty):
    return Agg("rng", [Ob(atom("rng", "seeded", vkey(I.rd(a[0]))), ty)])


@model("rand::SeedableRng::seed_from_u64")
def m_seed_u64(I, a, cal, ty):
    return Agg("rng", [Ob(atom("rng", "seeded", I.num(a[0])), ty)])


@model("rand::SeedableRng::from_entropy")
def m_from_entropy(I, a, cal, ty):
    return Agg("rng", [Ob(atom("rng", "thread"), ty)])


@model("rand::Rng::gen_range")
def m_gen_range(I, a, cal, ty):
    r = a[1]
    if isinstance(r, Agg) and tyname(I, r) == "std::ops::Range":
        return draw(I, I.num(r.f[0]), I.num(r.f[1]) - 1, gen_of(I, a[0]))
    if isinstance(r, Agg) and r.ty == "rangeincl":
        return draw(I, r.f[0], r.f[1], gen_of(I, a[0]))
    return NotImplemented


@model("rand::RngCore::next_u64")
def m_next_u64(I, a, cal, ty):
    return draw(I, ZERO, N(2 ** 64 - 1), gen_of(I, a[0]))


@model("rand::RngCore::next_u32")
def m_next_u32(I, a, cal, ty):
    return draw(I, ZERO, N(2 ** 32 - 1), gen_of(I, a[0]))


@model("rand::Rng::sample")
def m_sample(I, a, cal, ty):
    d = I.rd(a[1])
    if isinstance(d, Agg) and d.ty == "uniform":
        return draw(I, d.f[0], d.f[1], gen_of(I, a[0]))
    return NotImplemented


@model("rand_distr::Distribution::sample", "rand::distributions::Distribution::sample")
def m_dsample(I, a, cal, ty):
    d = I.rd(a[0])
    if isinstance(d, Agg) and d.ty == "uniform":
        return draw(I, d.f[0], d.f[1], gen_of(I, a[1]))
    return NotImplemented


@model("rand::Rng::sample_iter")
def m_sample_iter(I, a, cal, ty):
    d = I.rd(a[1])
    if isinstance(d, Agg) and d.ty == "uniform":
        return It(SDraw(d.f[0], d.f[1], gen_of(I, a[0]), site(I)))
    return NotImplemented


@model("rand::Rng::fill", "rand::RngCore::fill_bytes")
def m_rfill(I, a, cal, ty):
    r = I.deref_all(a[1])
    v = I.read(r)
    g = gen_of(I, a[0])
    st = site(I)
    hi = N(2 ** 8 - 1)
    n = alen(v)
    vv = fresh_ix(n)
    I.write(r, Arr(n, vv, N(atom("draw", ZERO, hi, g, st, *(I.kstack + [N(vv)])))))
    return UNIT


@model("sha2::Digest::new")
def m_sha_new(I, a, cal, ty):
    return Agg("sha", [])


@model("sha2::Digest::update")
def m_sha_update(I, a, cal, ty):
    r = I.deref_all(a[0])
    v = I.read(r)
    if not (isinstance(v, Agg) and v.ty == "sha"):
        return NotImplemented
    x = a[1]
    I.write(r, Agg("sha", v.f + (I.rd(x),)))
    return UNIT


BOUND_HOOK["sha"] = lambda a: ([ZERO], [N(255)])


@model("sha2::Digest::finalize")
def m_sha_fin(I, a, cal, ty):
    v = I.rd(a[0])
    if not (isinstance(v, Agg) and v.ty == "sha"):
        return NotImplemented
    k = tuple(vkey(x) for x in v.f)
    vv = fresh_ix(32)
    return Arr(N(32), vv, N(atom("sha", k, N(vv))))


# ------------------------------------------------------------------ registration
class ModelDict(dict):
    pass


def install(I):
    orig_get = I.models

    def lookup(cal):
        for k in ("res", "orig"):
            n = cal.get(k)
            if n is None:
                continue
            if n in M:
                return M[n]
        n = norm(cal.get("orig"))
        return M.get(n)
    I.lookup_model = lookup
    for k, f in CONSTS.items():
        I.models[("const", k)] = f


CONSTS = {}
