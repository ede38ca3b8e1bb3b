"""Utilities: 256-bit integers, bit decomposition, sampling, integer helpers, PVW, OMR."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *

W = N(1 << 64)


def u256(I, name, mut=False):
    l = [sym("%s%d" % (name, k), 0, (1 << 64) - 1) for k in range(4)]
    ty = adt_ty(I, "utils::U256")
    v = Agg(ty, l)
    return v, Ref(I.new_cell(v), (), mut), sum((x * (1 << 64 * k) for k, x in enumerate(l)), ZERO)


def val256(I, x):
    x = I.expand(I.rd(x) if isinstance(x, Ref) else x)
    if isinstance(x, (Lst, Arr)):
        return sum((aget(x, N(k)) * (1 << 64 * k) for k in range(4)), ZERO)
    if isinstance(x, Agg) and all(isinstance(y, Poly) for y in x.f):
        return sum((y * (1 << 64 * k) for k, y in enumerate(x.f)), ZERO)
    return None


def limbs_ok(I, g):
    g = I.expand(I.rd(g) if isinstance(g, Ref) else g)
    return [("limb %d is a 64-bit word" % k, band(ge0(x), ge0(W - 1 - x))) for k, x in enumerate(g.f)] if isinstance(g, Agg) else []


def is256(I, want, m=True):
    M = N(1 << 256)

    def f(g):
        v = val256(I, g)
        if v is None:
            return [("limbs", None)]
        return limbs_ok(I, g) + [("value", (v, want))]
    return Pred(f)


@spec("utils::U256::wrapping_add_assign", "P28")
def s_u256add(I):
    a, ra, x = u256(I, "x", True)
    b, rb, y = u256(I, "y")
    return Case([ra, b], None, outs=[("sum modulo 2^256", ra, is256(I, Lz(x + y, N(1 << 256), 1)))])


@spec("utils::U256::wrapping_sub_assign", "P28")
def s_u256sub(I):
    a, ra, x = u256(I, "x", True)
    b, rb, y = u256(I, "y")
    return Case([ra, b], None, outs=[("difference modulo 2^256", ra, is256(I, Lz(x - y, N(1 << 256), 1)))])


@spec("utils::U256::msb", "P28")
def s_u256msb(I):
    a, ra, x = u256(I, "x")
    return Case([a], fdiv(x, N(1 << 255)))


@spec("utils::U256::zero", "P28")
def s_u256zero(I):
    return Case([], is256(I, ZERO))


@spec("<utils::U256 as std::ops::Not>::not", "P28")
def s_u256not(I):
    a, ra, x = u256(I, "x")
    return Case([a], is256(I, N((1 << 256) - 1) - x))


@spec("<utils::U256 as std::ops::ShrAssign<usize>>::shr_assign", "P28")
def s_u256shr(I):
    cs = []
    for s in range(256):
        a, ra, x = u256(I, "x", True)
        cs.append(Case([ra, N(s)], None, outs=[("quotient", ra, is256(I, fdiv(x, N(1 << s))))], label="shift by %d" % s))
    return cs


@spec("<utils::U256 as std::ops::Shr<usize>>::shr", "P28")
def s_u256shr2(I):
    cs = []
    for s in (0, 1, 63, 64, 65, 126, 127, 128, 191, 192, 255):
        a, ra, x = u256(I, "x")
        cs.append(Case([a, N(s)], is256(I, fdiv(x, N(1 << s))), label="shift by %d" % s))
    return cs


@spec("utils::<impl std::convert::From<&utils::U256> for u128>::from", "P28")
def s_u256u128(I):
    ty = adt_ty(I, "utils::U256")
    l = [sym("x%d" % k, 0, (1 << 64) - 1) for k in range(2)] + [ZERO, ZERO]
    return Case([Ref(I.new_cell(Agg(ty, l)))], l[0] + l[1] * W)


@spec("utils::<impl std::convert::From<utils::U256> for [u128; 2]>::from", "P28")
def s_u256to128(I):
    a, ra, x = u256(I, "x")
    return Case([a], Lst([a.f[0] + a.f[1] * W, a.f[2] + a.f[3] * W]))


@spec("utils::<impl std::convert::From<utils::U256> for [u64; 4]>::from", "P28")
def s_u256to64(I):
    a, ra, x = u256(I, "x")
    return Case([a], Lst(list(a.f)))


@spec("<utils::U256 as std::convert::From<[u128; 2]>>::from", "P28")
def s_u256from128(I):
    l = [sym("x%d" % k, 0, (1 << 128) - 1) for k in range(2)]
    return Case([Lst(l)], is256(I, l[0] + l[1] * (1 << 128)))


@spec("<utils::U256 as std::convert::From<[u64; 4]>>::from", "P28")
def s_u256from64(I):
    l = [sym("x%d" % k, 0, (1 << 64) - 1) for k in range(4)]
    return Case([Lst(l)], is256(I, l[0] + l[1] * W + l[2] * (1 << 128) + l[3] * (1 << 192)))
