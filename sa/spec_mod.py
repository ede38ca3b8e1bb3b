"""L0: residue arithmetic (struct Modulus)."""
from spec import *

import interp

MODTY = "modulus::Modulus"
PSYM = sym("p", 2, (1 << 62) - 1)
U64 = 1 << 64
_tmpl = {}


def is_mod_ty(I, ty):
    t = I.ty(ty)
    return t["k"] == "adt" and t["path"] == MODTY


def pkey(key):
    return interp.mkscalar("u64", interp.fld(key, "#p"))


def template(I):
    """field graph of Modulus::new(p)"""
    k = id(I.P)
    if k not in _tmpl:
        old = (I.cells, list(F.stack), I.obl, I.notes, I.panics)
        I.cells, I.obl, I.notes, I.panics = dict(I.cells), [], [], []
        F.stack[:] = []
        nc = I.nocontract
        I.nocontract = frozenset(I.contracts)
        try:
            b = I.P.bodies.get("modulus::Modulus::new")
            r = I.run_body(b, [PSYM]) if b else None
        except (Unmodelled, Diverge):
            r = None
        finally:
            I.nocontract = nc
            I.cells, I.obl, I.notes, I.panics = old[0], old[2], old[3], old[4]
            F.stack[:] = old[1]
        pi = None
        if isinstance(r, Agg):
            for i, x in enumerate(r.f):
                if x is PSYM:
                    pi = i
                    break
        _tmpl[k] = (r, pi)
    return _tmpl[k]


def mod_agg(I, p):
    r, pi = template(I)
    if r is None or pi is None:
        return None
    return vsubst(r, {PSYM.single_atom(): N(p)})


def expand_hook(I, x):
    if is_mod_ty(I, x.ty):
        return mod_agg(I, pkey(x.key))
    return None


def invb(code, key):
    if key.op == "fld" and key.args[1] == "#p":
        return [2], [(1 << 62) - 1]
    return None


def modp(I, a):
    """the modulus p of a &Modulus argument (None if its other fields are not those of new(p))"""
    v = I.rd(a)
    if isinstance(v, Ob) and is_mod_ty(I, v.ty):
        return pkey(v.key)
    if isinstance(v, Agg):
        r, pi = template(I)
        if pi is None or len(v.f) != len(r.f):
            return None
        p = v.f[pi]
        if not isinstance(p, Poly):
            return None
        w = mod_agg(I, p)
        if all(x is y or (is_scalar(x) and is_scalar(y) and equal(x, y)[0]) for x, y in zip(v.f, w.f)):
            return p
    return None


def num(I, x):
    return I.num(I.rd(x)) if isinstance(x, Ref) else I.num(x)


def lt_(a, b):
    return prove_ge0(b - a - 1)


def _rng_split(x, hi, depth=2):
    cs = T._conds(x)
    if not cs or len(cs) > 3:
        return False
    for c in (cs[0], bnot(cs[0])):
        with assume(c):
            if contradictory():
                continue
            y = resimp(x)
            if not (prove_ge0(y) and lt_(y, hi)) and (depth == 0 or not _rng_split(y, hi, depth - 1)):
                return False
    return True


def rng(x, hi):
    """0 <= x < hi proven"""
    if prove_ge0(x) and lt_(x, hi):
        return True
    if any(a.op == "ite" for m in x.t for a, _ in m) and _rng_split(x, hi):
        return True
    sa = x.single_atom()
    if sa is not None and sa.op == "sel":
        T.HINTS.setdefault(sa.args[0], set()).add((sa.args[1:], N(hi) - 1))
    return False


def con(f):
    """contract with self modulus and numeric arguments"""
    def g(I, args, cal, ty):
        p = modp(I, args[0])
        if p is None:
            return NotImplemented
        return f(p, *[num(I, a) for a in args[1:]])
    return g


NI = NotImplemented


def c_reduce_ct(I, args, cal, ty):
    x, m = num(I, args[0]), num(I, args[1])
    if not (prove_ge0(m - 1) and lt_(m, N(1 << 63)) and rng(x, 2 * m)):
        return NI
    return mod(x, m)


def mself(I):
    return Ref(I.new_cell(mod_agg(I, PSYM)))


def pre_p():
    return sym("a", 0, PSYM - 1), sym("b", 0, PSYM - 1)


x64 = sym("x", 0, U64 - 1)
i64v = sym("i", -(1 << 63), (1 << 63) - 1)
x128 = sym("X", 0, (1 << 128) - 1)


@spec("modulus::Modulus::new", "P01")
def s_new(I):
    r = fdiv(N(1 << 128), PSYM)
    return [Case([PSYM], Pred(lambda g: [("stores the modulus", eq(I.expand(g).f[template(I)[1]] if template(I)[1] is not None else N(-1), PSYM))])),
            Case([sym("pbig", 1 << 62, U64 - 1)], diverges=True, label="modulus of 63 or more bits")]


@spec("modulus::Modulus::reduce_ct", "P01", contract=c_reduce_ct)
def s_reduce_ct(I):
    m = sym("m", 1, (1 << 63) - 1)
    y = sym("y", 0, 2 * m - 1)
    return Case([y, m], mod(y, m))


@spec("modulus::Modulus::lazy_reduce_ct", "P01", contract=con(lambda p, x: lz(x, p, 2) if rng(x, N(U64)) else NI))
def s_lrc(I):
    return Case([mself(I), x64], Lz(x64, PSYM, 2))


@spec("modulus::Modulus::lazy_reduce_u128", "P01", contract=con(lambda p, x: lz(x, p, 2) if rng(x, N(1 << 128)) else NI))
def s_lru(I):
    return Case([mself(I), x128], Lz(x128, PSYM, 2))


@spec("modulus::Modulus::reduce", "P01", contract=con(lambda p, x: mod(x, p) if rng(x, N(U64)) else NI))
def s_reduce(I):
    return Case([mself(I), x64], mod(x64, PSYM))


@spec("modulus::Modulus::reduce_u128", "P01", contract=con(lambda p, x: mod(x, p) if rng(x, N(1 << 128)) else NI))
def s_reduce_u128(I):
    return Case([mself(I), x128], mod(x128, PSYM))


@spec("modulus::Modulus::reduce_biguint", "P01")
def s_reduce_big(I):
    B = sym("B", 0)
    return Case([mself(I), Ref(I.new_cell(B))], mod(B, PSYM))


@spec("modulus::Modulus::reduce_i64", "P01", contract=con(lambda p, x: mod(x, p) if prove_ge0(x + (1 << 63)) and lt_(x, N(1 << 63)) else NI))
def s_reduce_i64(I):
    return Case([mself(I), i64v], mod(i64v, PSYM))


def bin_(name, f):
    key = "modulus::Modulus::" + name

    def c(p, a, b):
        if rng(a, p) and rng(b, p):
            return mod(f(a, b), p)
        return NI

    @spec(key, "P01", contract=con(c))
    def s(I):
        a, b = pre_p()
        return Case([mself(I), a, b], mod(f(a, b), PSYM))


bin_("add", lambda a, b: a + b)
bin_("sub", lambda a, b: a - b)
bin_("mul", lambda a, b: a * b)


@spec("modulus::Modulus::neg", "P01", contract=con(lambda p, a: mod(-a, p) if rng(a, p) else NI))
def s_neg(I):
    a, _ = pre_p()
    return Case([mself(I), a], mod(-a, PSYM))


@spec("modulus::Modulus::pow", "P01", contract=con(lambda p, a, r: mod(pw(a, r), p) if rng(a, p) and prove_ge0(r) and lt_(r, p) else NI))
def s_pow(I):
    a, _ = pre_p()
    r = sym("r", 0, PSYM - 1)
    return Case([mself(I), a, r], mod(pw(a, r), PSYM))


@spec("modulus::Modulus::inv", "P01", contract=con(lambda p, a: inv(a, p) if rng(a, p) else NI))
def s_inv(I):
    a = sym("a1", 1, PSYM - 1)
    return Case([mself(I), a], mod(pw(a, PSYM - 2), PSYM))


@spec("modulus::Modulus::shoup", "P01", contract=con(lambda p, a: fdiv(a * U64, p) if rng(a, p) else NI))
def s_shoup(I):
    a, _ = pre_p()
    return Case([mself(I), a], fdiv(a * U64, PSYM))


def _shoup_ok(p, b, bs):
    return rng(b, p) and equal(bs, fdiv(b * U64, p))[0]


@spec("modulus::Modulus::lazy_mul_shoup", "P01",
      contract=con(lambda p, a, b, bs: lz(a * b, p, 2) if rng(a, N(U64)) and _shoup_ok(p, b, bs) else NI))
def s_lms(I):
    _, b = pre_p()
    return Case([mself(I), x64, b, fdiv(b * U64, PSYM)], Lz(x64 * b, PSYM, 2))


@spec("modulus::Modulus::mul_shoup", "P01",
      contract=con(lambda p, a, b, bs: mod(a * b, p) if rng(a, N(U64)) and _shoup_ok(p, b, bs) else NI))
def s_ms(I):
    _, b = pre_p()
    return Case([mself(I), x64, b, fdiv(b * U64, PSYM)], mod(x64 * b, PSYM))


@spec("modulus::Modulus::modulus", "P01", contract=con(lambda p: p))
def s_modulus(I):
    return Case([mself(I)], PSYM)


@spec("modulus::Modulus::bits", "P01", contract=con(lambda p: bitlen(p)))
def s_bits(I):
    return Case([mself(I)], bitlen(PSYM))


# ------------------------------------------------------------------ vectors
def symvec(I, name, lo, hi, n=None, mut=False):
    """slice of symbolic length whose elements lie in [lo, hi]"""
    n = N(sym("n_" + name, 0, 1 << 32)) if n is None else n
    v = fresh_ix(n)
    a = atom("el", name, N(v))
    ELB[name] = (N(lo), N(hi))
    return Ref(I.new_cell(Arr(n, v, N(a))), (), mut), n, lambda i: N(atom("el", name, N(i)))


ELB = {}
BOUND_HOOK["el"] = lambda a: ([ELB[a.args[0]][0]], [ELB[a.args[0]][1]]) if a.args[0] in ELB else ([], [])


def vec2(name, f):
    @spec("modulus::Modulus::" + name, "P01")
    def s(I):
        n = sym("n", 0, 1 << 32)
        ra, _, a = symvec(I, "va", 0, PSYM - 1, n, True)
        rb, _, b = symvec(I, "vb", 0, PSYM - 1, n)
        return Case([mself(I), ra, rb], None, outs=[("in place", ra, Rows(n, lambda i: mod(f(a(i), b(i)), PSYM)))])


vec2("add_vec", lambda a, b: a + b)
vec2("sub_vec", lambda a, b: a - b)
vec2("mul_vec", lambda a, b: a * b)


def vec1(name, f, lo, hi, big=False):
    @spec("modulus::Modulus::" + name, "P01")
    def s(I):
        n = sym("n", 0, 1 << 32)
        ra, _, a = symvec(I, "v_" + name, lo, hi, n)
        return Case([mself(I), ra], Rows(n, lambda i: f(a(i))))


vec1("neg_vec", lambda a: mod(-a, PSYM), 0, PSYM - 1)
vec1("reduce_vec_u64", lambda a: mod(a, PSYM), 0, U64 - 1)
vec1("reduce_vec_i64", lambda a: mod(a, PSYM), -(1 << 63), (1 << 63) - 1)
vec1("reduce_vec_biguint", lambda a: mod(a, PSYM), 0, (1 << 200) - 1)
vec1("shoup_vec", lambda a: fdiv(a * U64, PSYM), 0, PSYM - 1)
vec1("inv_vec", lambda a: inv(a, PSYM), 1, PSYM - 1)


@spec("modulus::Modulus::scalar_mul_vec", "P01")
def s_smv(I):
    n = sym("n", 0, 1 << 32)
    ra, _, a = symvec(I, "v_smv", 0, U64 - 1, n)
    _, b = pre_p()
    return Case([mself(I), ra, b], Rows(n, lambda i: mod(a(i) * b, PSYM)))


PRIMES = [3, 5, 7, 17, 97, 257, 1153, 12289, 65537, 786433, 4611686018326724609, 4611686018427387761,
          2305843009213693951, 1125899906826241, 576460752303415297, 193, 353, 449, 577, 641, 673, 769,
          469762049, 998244353, 167772161, 2013265921, 4179340454199820289]


def sampler(a, k, env):
    if a is PSYM.single_atom() or (a.op == "val" and a.args[1].op == "fld" and a.args[1].args[1] == "#p"):
        r = random.Random(ev._h((env.seed, k, "prime")))
        return r.choice(PRIMES) if r.random() < 0.85 else r.choice([2, 3, 13, 4611686018427387847 if False else 29])
    return None


import random
ev.SAMPLERS.append(sampler)


def setup(prog):
    I = Interp(prog)
    models.install(I)
    interp.EXPAND_HOOK = expand_all
    if invb not in interp.INVB:
        interp.INVB.append(invb)
    for sp in SPECS.values():
        if sp.contract is not None:
            I.contracts[sp.key] = sp.contract
    return I


EXPANDERS = [expand_hook]


def expand_all(I, x):
    for f in EXPANDERS:
        r = f(I, x)
        if r is not None:
            return r
    return None
