"""Callee summaries of the polynomial layer (coefficient level), used by the scheme-level specs.

Every summary is the closed form its own spec (spec_rq.py) establishes; it applies only when the
arguments satisfy that spec's preconditions, and the specs of all summaries used by a check are
re-verified in the same run.
"""
from spec import *
import spec_rq
from spec_rq import *


def rep_name(I, d):
    c = N(d).const()
    if c is None:
        return None
    ad = I.P.adts.get("rq::Representation")
    names = [v["name"] for v in ad["variants"]]
    return names[c] if 0 <= c < len(names) else None


class PV:
    """a polynomial value: base, level, representation name, element function"""

    def __init__(self, I, v):
        p = parts(I, v)
        self.ok = False
        if p is None:
            return
        self.ob, d, m = p
        if self.ob.key.op != "cx" or isinstance(m, Top):
            return
        self.B, self.l = self.ob.key.args
        self.rep = rep_name(I, d)
        self.m = m
        if self.rep is None or not isinstance(m, (Arr, Lst, Cat)):
            return
        self.n = nq(self.B) - self.l
        if alen(m) is not self.n and not equal(alen(m), self.n)[0]:
            return
        self.ok = True

    def f(self, i, j):
        r = aget(self.m, N(i))
        return aget(r, N(j)) if isinstance(r, (Arr, Lst, Cat)) else Top("row")

    def canonical(self):
        """every residue proven to be in [0, q_i), every row of the ring's degree"""
        i, j = fresh_ix(self.n), fresh_ix(pow2(basedeg(self.B)))
        r = aget(self.m, N(i))
        if not isinstance(r, (Arr, Lst, Cat)) or not (alen(r) is pow2(basedeg(self.B)) or equal(alen(r), pow2(basedeg(self.B)))[0]):
            return False
        e = aget(r, N(j))
        return isinstance(e, Poly) and in_residue(e, q(self.B, N(i)))


def in_residue(e, p, depth=4):
    if rng(e, p):
        return True
    if depth == 0:
        return False
    cs = T._conds(e)
    if not cs:
        return False
    for cc in (cs[0], bnot(cs[0])):
        with assume(cc):
            if not contradictory() and not in_residue(resimp(e), p, depth - 1):
                return False
    return True


def mkrows(B, l, f):
    n, m = nq(B) - l, pow2(basedeg(B))
    i, j = fresh_ix(n), fresh_ix(m)
    return Arr(n, i, Arr(m, j, f(N(i), N(j))))


def pv(I, v):
    x = PV(I, v)
    return x if x.ok else None


def same_ring(a, b):
    if a.B is not b.B:
        return False
    return a.l is b.l or equal(a.l, b.l)[0]


def result(I, a, f, rep=None):
    return mkpoly(I, a.ob, rep or a.rep, mkrows(a.B, a.l, f))


def c_ring(f, assign):
    def c(I, args, cal, ty):
        a, b = pv(I, args[0]), pv(I, args[1])
        if a is None or b is None or a.rep != "Ntt" or b.rep != "Ntt" or not same_ring(a, b):
            return NI
        if not (a.canonical() and b.canonical()):
            return NI
        r = result(I, a, lambda i, j: mod(f(a.f(i, j), b.f(i, j)), q(a.B, i)))
        if assign:
            I.write(I.deref_all(args[0]), r)
            return UNIT
        return r
    return c


OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b}
for _t, _f in OPS.items():
    _m = _t.lower()
    SPECS[key_op(_t + "Assign", _m + "_assign")].contract = c_ring(_f, True)
    SPECS[key_op(_t, _m, slf="&rq::Poly")].contract = c_ring(_f, False)


def c_neg(I, args, cal, ty):
    a = pv(I, args[0])
    if a is None or not a.canonical():
        return NI
    return result(I, a, lambda i, j: mod(-a.f(i, j), q(a.B, i)))


SPECS["<&rq::Poly as std::ops::Neg>::neg"].contract = c_neg


def c_mulbig(assign):
    def c(I, args, cal, ty):
        a = pv(I, args[0])
        b = I.rd(args[1])
        if a is None or a.rep != "Ntt" or not isinstance(b, Poly) or not prove_ge0(b) or not a.canonical():
            return NI
        r = result(I, a, lambda i, j: mod(a.f(i, j) * b, q(a.B, i)))
        if assign:
            I.write(I.deref_all(args[0]), r)
            return UNIT
        return r
    return c


SPECS[key_op("MulAssign", "mul_assign", "&num_bigint::BigUint")].contract = c_mulbig(True)
SPECS[key_op("Mul", "mul", "&num_bigint::BigUint", "&rq::Poly")].contract = c_mulbig(False)


def ctx_of(I, v):
    v = I.rd(v)
    return v if isinstance(v, Ob) and v.key.op == "cx" else None


def c_fromvec(lo, hi):
    def c(I, args, cal, ty):
        cx_ = ctx_of(I, args[0])
        v = I.rd(args[1])
        if cx_ is None or not isinstance(v, (Arr, Lst, Cat)):
            return NI
        B, l = cx_.key.args
        n, N2 = alen(v), pow2(basedeg(B))
        if not prove_ge0(N2 - n):
            return NI
        if n.const() != 0:
            k = fresh_ix(n)
            e = aget(v, N(k))
            if not isinstance(e, Poly):
                return NI
            if lo is not None and not (prove_ge0(e - lo) and (hi is None or prove_ge0(hi - e))):
                cs = T._conds(e)
                if not cs or not all(_within(e, lo, hi, cc) for cc in (cs[0], bnot(cs[0]))):
                    return NI

        def f(i, j):
            if n is N2:
                return mod(aget(v, j), q(B, i))
            return ite(ge0(n - 1 - j), mod(_safe(v, j, n), q(B, i)), ZERO)
        return mkpoly(I, cx_, "PowerBasis", mkrows(B, l, f))
    return c


def _within(e, lo, hi, cc):
    with assume(cc):
        e = resimp(e)
        return contradictory() or (prove_ge0(e - lo) and (hi is None or prove_ge0(hi - e)))


def _safe(v, j, n):
    with assume(ge0(n - 1 - j)):
        r = aget(v, j)
    return r if isinstance(r, Poly) else ZERO


SPECS["rq::Poly::try_from_vec_u64"].contract = c_fromvec(0, U64 - 1)
SPECS["rq::Poly::try_from_vec_i64"].contract = c_fromvec(-(1 << 63), (1 << 63) - 1)
SPECS["rq::Poly::try_from_bigint"].contract = c_fromvec(0, None)


def nttrows(a_f, B, l, kind):
    lg = basedeg(B)
    n = pow2(lg)

    def f(i, j):
        w = fresh_ix(n)
        e = a_f(i, N(w))
        r = ntt_row(kind, q(B, i), lg, Arr(n, w, e))
        return r(j) if r is not None else None
    return f


def c_chrep(I, args, cal, ty):
    a = pv(I, args[0])
    d = I.expand(args[1])
    to = rep_name(I, d.d) if isinstance(d, En) else None
    if a is None or to not in ("Ntt", "PowerBasis") or a.rep not in ("Ntt", "PowerBasis"):
        return NI
    if to == a.rep:
        return UNIT
    if not a.canonical():
        return NI
    f = nttrows(a.f, a.B, a.l, "nttf" if to == "Ntt" else "nttb")
    i, j = fresh_ix(a.n), fresh_ix(pow2(basedeg(a.B)))
    if f(N(i), N(j)) is None:
        return NI
    I.write(I.deref_all(args[0]), result(I, a, f, to))
    return UNIT


SPECS["rq::Poly::change_representation"].contract = c_chrep


def c_msdn(I, args, cal, ty):
    a = pv(I, args[0])
    if a is None or a.rep != "PowerBasis" or not prove_ge0(a.n - 2) or not a.canonical():
        return NI
    r = mkpoly(I, ctx_ob(I, a.B, a.l + 1), "PowerBasis", mkrows(a.B, a.l + 1, lambda i, j: switch_coef(a.f, a.B, a.l, i, j)))
    I.write(I.deref_all(args[0]), r)
    return UNIT


SPECS["rq::Poly::mod_switch_down_next"].contract = c_msdn


def sub_exponent(I, v):
    """odd exponent e < 2n of a Substitution value"""
    v = I.expand(I.rd(v))
    if not isinstance(v, Agg):
        return None
    es = [x for x in v.f if isinstance(x, Poly)]
    return es[0] if len(es) == 1 else None


def c_subst(I, args, cal, ty):
    a = pv(I, args[0])
    e = sub_exponent(I, args[1])
    if a is None or e is None or a.rep not in ("Ntt", "PowerBasis"):
        return NI
    lg = basedeg(a.B)
    n = pow2(lg)
    if mod(e, N(2)) is not ONE or not prove_ge0(e) or not prove_ge0(2 * n - 1 - e):
        return NI
    # the table that goes with the exponent
    v = I.expand(I.rd(args[1]))
    h = fdiv(e - 1, N(2))
    for x in v.f:
        if isinstance(x, (Arr, Lst, Cat)):
            k = fresh_ix(n)
            if not equal(alen(x), n)[0] or not equal(aget(x, N(k)), brv(mod(h + N(k) * e, n), lg))[0]:
                return NI
    if not a.canonical():
        return NI
    if a.rep == "PowerBasis":
        return result(I, a, lambda i, x: subst_coef(a.f, a.B, i, x, e, n))
    return result(I, a, lambda i, x: a.f(i, brv(mod(h + brv(x, lg) * e, n), lg)))


SPECS["rq::Poly::substitute"].contract = c_subst


# ------------------------------------------------------------------ switching to a given context
@spec("rq::Poly::mod_switch_to", "P10")
def s_msto(I):
    a = lambda i, j: pc("a", QB, i, j)
    cs = []
    for k in (0, 1, 2):
        l = sym("ls%d" % k, 0, nq(QB) - 1 - k)
        f = a
        for s in range(k):
            f = (lambda g, s=s, l=l: lambda i, j: switch_coef(g, QB, l + s, i, j))(f)
        r = sympoly(I, "a", "PowerBasis", l=l, mut=True)
        cs.append(Case([r, ctxref(I, QB, l + k)], None, outs=[("result", r, PolyIs(I, ctx_ob(I, QB, l + k), "PowerBasis", RowsIs(QB, l + k, f)))],
                       pre=[ge0(nq(QB) - 1 - k)], label="%d levels down" % k))
    return cs
