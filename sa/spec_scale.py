"""L2: scaling between residue bases (fixed-point evaluation)."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *
import spec_rq
from spec_rq import QB, LV, NN, LG
import spec_rns
from spec_rns import rns_ob, prod_q, garner, crt
import spec_misc
from spec_misc import val256
import spec_bfv
import spec_poly
from spec_rq import pc, sympoly, RowsIs, PolyIs
import loops
import terms as T
from spec_bfv import struct, rqs, srd, require

M64, M128, M192, M256 = N(1 << 64), N(1 << 128), N(1 << 192), N(1 << 256)
U256T = "utils::U256"


# ------------------------------------------------ wide integers, as values
# A packed wide integer is an integer Z of which only the residue modulo 2^w
# counts (the wrapping operations); reading it reduces.
class Packed:
    pass


def is_packed(x):
    return isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], Poly)


def words(l):
    return sum((N(x) * (1 << 64 * k) for k, x in enumerate(l)), ZERO)


def u256_val(I, x):
    x = I.rd(x) if isinstance(x, Ref) else x
    return x.f[0] if is_packed(x) else None


def pack256(I, z):
    return Agg(adt_ty(I, U256T), [N(z)])


def c256(f):
    """contract over packed operands"""
    def g(I, args, cal, ty):
        zs = []
        for a in args:
            a = I.rd(a) if isinstance(a, Ref) else a
            if is_packed(a):
                zs.append(a.f[0])
            elif isinstance(a, Poly):
                zs.append(a)
            else:
                return NI
        return f(I, args, *zs)
    return g


def _acc(sg):
    def f(I, args, x, y):
        I.write(args[0], pack256(I, x + sg * y))
        return UNIT
    return f


def red(z, m=M256):
    h = N(1 << 255)
    if m is M256 and prove_ge0(z + h) and prove_ge0(h - 1 - z):
        return ite(ge0(z), z, z + m)
    return mod(z, m)


def top_bit(z):
    h = N(1 << 255)
    if prove_ge0(z + h) and prove_ge0(h - 1 - z):
        return ite(ge0(z), 0, 1)
    return fdiv(mod(z, M256), h)


def c_from4(I, args, cal, ty):
    x = I.rd(args[0]) if isinstance(args[0], Ref) else args[0]
    if not isinstance(x, (Lst, Arr)) or not I.pack256:
        return NI
    return pack256(I, words([aget(x, N(k)) for k in range(4)]))


def on_packed(key, f):
    sp = SPECS[key]
    sp.contract = f


on_packed("utils::U256::zero", lambda I, args, cal, ty: pack256(I, ZERO) if I.pack256 else NI)
on_packed("<utils::U256 as std::convert::From<[u64; 4]>>::from", c_from4)
on_packed("utils::U256::wrapping_add_assign", c256(_acc(1)))
on_packed("utils::U256::wrapping_sub_assign", c256(_acc(-1)))
on_packed("utils::U256::msb", c256(lambda I, args, x: top_bit(x)))
on_packed("<utils::U256 as std::ops::Not>::not", c256(lambda I, args, x: pack256(I, -1 - x)))
on_packed("<utils::U256 as std::ops::Shr<usize>>::shr", c256(lambda I, args, x, s: pack256(I, fdiv(red(x), pow2(s))) if prove_ge0(s) and prove_ge0(255 - s) else NI))
on_packed("utils::<impl std::convert::From<&utils::U256> for u128>::from", c256(lambda I, args, x: mod(red(x), M128)))


def _u192(x):
    return x.f[0] if isinstance(x, Agg) and x.ty == "u192" else None


def pack192(z):
    return Agg("u192", [N(z)])


models.CONSTS["crypto_bigint::UInt"] = lambda I, c: pack192(ZERO) if c.get("repr") == "crypto_bigint::UInt::<3>::ZERO" else Top("constant %s" % c.get("repr"))


@models.model("crypto_bigint::UInt::from_words")
def m_fw(I, a, cal, ty):
    x = I.rd(a[0]) if isinstance(a[0], Ref) else a[0]
    if isinstance(x, (Lst, Arr)) and alen(x) is N(3):
        return pack192(words([aget(x, N(k)) for k in range(3)]))
    return Top("UInt")


def _u192op(name, f):
    def g(I, a, cal, ty):
        x, y = [_u192(I.rd(z) if isinstance(z, Ref) else z) for z in a]
        if x is None or y is None:
            return Top("UInt")
        return pack192(f(x, y))
    models.M[name] = g


_u192op("crypto_bigint::uint::add::wrapping_add", lambda x, y: x + y)
_u192op("crypto_bigint::uint::sub::wrapping_sub", lambda x, y: x - y)
_oldshr = models.M["std::ops::ShrAssign::shr_assign"]


@models.model("std::ops::ShrAssign::shr_assign")
def m_shra(I, a, cal, ty):
    x = _u192(I.rd(a[0]))
    if x is None:
        return _oldshr(I, a, cal, ty)
    I.write(a[0], pack192(fdiv(mod(x, M192), pow2(I.num(a[1])))))
    return UNIT


_oldfrom = models.M.get("std::convert::From::from")


@models.model("std::convert::From::from")
def m_from(I, a, cal, ty):
    x = _u192(I.rd(a[0]) if isinstance(a[0], Ref) else a[0])
    if x is None:
        return _oldfrom(I, a, cal, ty)
    x = mod(x, M192)
    return Lst([mod(fdiv(x, N(1 << 64 * k)), M64) for k in range(3)])


# ------------------------------------------------ the scaler as data
B1, B2 = base("W"), base("R")
L1, L2 = sym("lvw", 0, nq(B1) - 1), sym("lw", 0, nq(B2) - 1)
SH = sym("theta_shift", 1, 127)


def tb(nm, *ix):
    return N(atom("tab", nm, *[N(i) for i in ix]))


def _tabb(a):
    nm = a.args[0]
    if nm == "gamma":
        return [ZERO], [q(B2, a.args[1]) - 1]
    if nm == "omega":
        return [ZERO], [q(B2, a.args[1]) - 1]
    if nm == "tgarner":
        return [ZERO], [pow2(SH)]
    if nm in ("tomega", "tgamma"):
        return [ZERO], [N(1 << 126)]
    if nm == "rest":
        return [ZERO], [q(B1, a.args[1]) - 1]
    return [ZERO], [ONE]


BOUND_HOOK["tab"] = _tabb
REBUILD["tab"] = lambda nm, *ix: tb(nm, *ix)


def tabsample(a, k, env):
    """in every third valuation the operands are near their upper ends (all words in use)"""
    if a.op != "tab" or a.args[0] not in ("rest", "tgarner", "tgamma") or ev._h((env.seed, "tabmode")) % 3:
        return None
    if a.args[0] == "tgarner":
        h = env.val(pow2(SH))
    elif a.args[0] == "rest":
        h = env.atom(q(B1, N(k[2])).single_atom(), {}) - 1
    else:
        h = 1 << 126
    return max(0, h - ev._h((env.seed, k)) % 7)


ev.SAMPLERS.insert(0, tabsample)


def sgn(nm, *ix):
    return bsym("sgn", nm, *[N(i) for i in ix])


def arr(n, f):
    v = fresh_ix(n)
    return Arr(N(n), v, f(N(v)))


def scaler(I, one, sg):
    n1, n2 = nq(B1) - L1, nq(B2) - L2
    tg = tb("tgamma")
    lo, hi = (lambda x: mod(x, M64)), (lambda x: fdiv(x, M64))
    to = lambda i: tb("tomega", i)
    tga = lambda i: tb("tgarner", i)
    sf = struct(I, "rns::ScalingFactor", is_one=TRUE if one else FALSE)
    return struct(I, "rns::RnsScaler", **{
        "from": rns_ob(I, B1, L1), "to": rns_ob(I, B2, L2), "scaling_factor": sf,
        "gamma": arr(n2, lambda i: tb("gamma", i)), "gamma_shoup": arr(n2, lambda i: fdiv(tb("gamma", i) * U64, q(B2, i))),
        "theta_gamma_lo": lo(tg), "theta_gamma_hi": hi(tg), "theta_gamma_sign": sg,
        "omega": arr(n2, lambda i: arr(n1, lambda j: tb("omega", i, j))),
        "omega_shoup": arr(n2, lambda i: arr(n1, lambda j: fdiv(tb("omega", i, j) * U64, q(B2, i)))),
        "theta_omega_lo": arr(n1, lambda j: lo(to(j))), "theta_omega_hi": arr(n1, lambda j: hi(to(j))),
        "theta_omega_sign": arr(n1, lambda j: sgn("tomega", j)),
        "theta_garner_lo": arr(n1, lambda j: lo(tga(j))), "theta_garner_hi": arr(n1, lambda j: hi(tga(j))),
        "theta_garner_shift": SH})


def fixed_point(one, sg):
    """row i of the scaled number, from the tables (the documented evaluation)"""
    n1 = nq(B1) - L1
    r = lambda j: tb("rest", j)
    v_ = fresh_ix(n1)
    S = mk_sum(v_, n1, r(N(v_)) * tb("tgarner", N(v_)))
    # consequences of S <= 64 * 2^62 * 2^shift and of the choice of the shift
    with with_facts([ge0(N(1 << 191) - S), ge0(pow2(SH + 68) - S)]):
        set_range(fdiv(S, pow2(SH - 1)), 0, 1 << 69)
        v = fdiv(mod(fdiv(mod(S, M192), pow2(SH - 1)), M128) + 1, N(2))
        set_range(v, 0, 1 << 69)
        set_range(fdiv(v, M64), 0, 1 << 5)
    u_ = fresh_ix(n1)
    T = mk_sum(u_, n1, ite(sgn("tomega", N(u_)), -r(N(u_)) * tb("tomega", N(u_)), r(N(u_)) * tb("tomega", N(u_))))
    T = T + ite(sg, 1, -1) * v * tb("tgamma")
    hlf = lambda z: fdiv(mod(fdiv(z, N(1 << 126)), M128) + 1, N(2))
    c = ge0(top_bit(T) - 1)
    with with_facts([c]):
        neg = hlf(red(-1 - T))
    with with_facts([bnot(c)]):
        pos = hlf(red(T))
    w = ite(c, -neg, pos)

    def row(i):
        w_ = fresh_ix(n1)
        e = mk_sum(w_, n1, r(N(w_)) * tb("omega", i, N(w_))) - v * tb("gamma", i)
        return mod(e if one else e + w, q(B2, i))
    row.S = S
    return row


@spec("rns::RnsScaler::scale", "P09")
def s_rnsscale(I):
    I.pack256 = True
    cs = []
    for one, sg in ((True, sgn("tgamma")), (False, TRUE), (False, FALSE)):
        n1, n2 = nq(B1) - L1, nq(B2) - L2
        st = sym("start", 0, n2 - 1)
        n = n2 - st
        out = Ref(I.new_cell(arr(n, lambda i: sym("u_out", 0, U64 - 1))), (), True)
        rests = Ref(I.new_cell(arr(n1, lambda j: tb("rest", j))))
        row = fixed_point(one, sg)
        cs.append(Case([Ref(I.new_cell(scaler(I, one, sg))), rests, out, st], None, outs=[("rows", out, Rows(n, (lambda row, st: lambda i: row(st + i))(row, st)))],
                       pre=[ge0(N(1 << 191) - row.S), ge0(pow2(SH + 68) - row.S)], label="factor one" if one else "general factor, projection rounded %s" % ("up" if sg is TRUE else "down")))
    return cs


# ------------------------------------------------ building the tables
NU, DE = sym("numer", 0), sym("denom", 1)


def gamma_of(x, nu, de):
    return fdiv(N(nu) * x + fdiv(de, N(2)), de)


def theta_of(x, nu, de, up):
    """(magnitude scaled by 2^127, negative?) of nu x / de - round(nu x / de)"""
    r = mod(N(nu) * x, de)
    neg = band(ge0(N(de) - 2), ge0(2 * r - de))
    m = ite(neg, N(de) - r, r)
    ceil_ = bnot(neg) if up else neg
    t = m * (1 << 127)
    return ite(ceil_, fdiv(t + de - 1, de), fdiv(t, de)), neg


def c_extract(I, args, cal, ty):
    r = I.rd(args[0])
    x, nu, de = [I.num(I.rd(a)) for a in args[1:4]]
    up = args[4] if isinstance(args[4], Bl) else None
    if not (isinstance(r, Ob) and r.key.op == "rnsx") or up is None or decide(up) is None or not prove_ge0(de - 1) or not prove_ge0(x) or not prove_ge0(nu):
        return NI
    B, l = r.key.args
    return extract_v(B, l, x, nu, de, decide(up))


def extract_v(B, l, x, nu, de, up):
    g = gamma_of(x, nu, de)
    t, neg = theta_of(x, nu, de, up)
    return Agg("tuple", [arr(nq(B) - l, lambda i: mod(g, q(B, i))), mod(t, M64), fdiv(t, M64), neg])


@spec("rns::RnsScaler::extract_projection_and_theta", "P09", contract=c_extract)
def s_extract(I):
    x, h = sym("X_in", 0), sym("half_denom", 1)
    return [Case([Ref(I.new_cell(rns_ob(I, B2, L2))), Ref(I.new_cell(x)), Ref(I.new_cell(NU)), Ref(I.new_cell(de)), up],
                 extract_v(B2, L2, x, NU, de, up is TRUE), label="rounded %s, %s" % ("up" if up is TRUE else "down", lab))
            for up in (TRUE, FALSE) for lab, de in (("denominator 1", ONE), ("even denominator", 2 * h), ("odd denominator", 2 * h + 1))]


@spec("rns::ScalingFactor::new", "P09")
def s_sf(I):
    return [Case([NU, DE], ("fields", {"numerator": NU, "denominator": DE, "is_one": eq(NU, DE)})),
            Case([NU, ZERO], diverges=True, label="zero denominator")]


@spec("rns::ScalingFactor::is_one", "P09")
def s_sfone(I):
    b = bsym("isone")
    return Case([Ref(I.new_cell(struct(I, "rns::ScalingFactor", is_one=b)))], b)


def factor(I, nu, de, one):
    return struct(I, "rns::ScalingFactor", numerator=nu, denominator=de, is_one=one)


def shift_of(Ba, n1):
    """min(127, min_i (191 - log2 of the power of two above q_i n))"""
    v = fresh_ix(n1)
    return pmin(mk_min(v, n1, 191 - bitlen(q(Ba, v) * n1 - 1)), N(127))


def table_fields(I, Ba, la, Bb, lb_, nu, de, one, sh):
    n1, n2 = nq(Ba) - la, nq(Bb) - lb_
    Q = prod_q(Ba, n1)
    g = gamma_of(Q, nu, de)
    tg, tneg = theta_of(Q, nu, de, False)
    ga = lambda i: garner(Ba, n1, i)
    om = lambda j, i: mod(gamma_of(ga(i), nu, de), q(Bb, j))
    to = lambda i: theta_of(ga(i), nu, de, True)
    tga = lambda i: fdiv(ga(i) * pow2(sh) + fdiv(Q, N(2)), Q)
    gm = lambda i: mod(g, q(Bb, i))
    return {
        "from": rns_ob(I, Ba, la), "to": rns_ob(I, Bb, lb_), "scaling_factor": factor(I, nu, de, one),
        "gamma": Rows(n2, gm), "gamma_shoup": Rows(n2, lambda i: fdiv(gm(i) * U64, q(Bb, i))),
        "theta_gamma_lo": mod(tg, M64), "theta_gamma_hi": fdiv(tg, M64), "theta_gamma_sign": tneg,
        "omega": Rows(n2, lambda j: Rows(n1, lambda i: om(j, i))),
        "omega_shoup": Rows(n2, lambda j: Rows(n1, lambda i: fdiv(om(j, i) * U64, q(Bb, j)))),
        "theta_omega_lo": Rows(n1, lambda i: mod(to(i)[0], M64)), "theta_omega_hi": Rows(n1, lambda i: fdiv(to(i)[0], M64)),
        "theta_omega_sign": Rows(n1, lambda i: to(i)[1]),
        "theta_garner_lo": Rows(n1, lambda i: mod(tga(i), M64)), "theta_garner_hi": Rows(n1, lambda i: fdiv(tga(i), M64)),
    }


@spec("rns::RnsScaler::new", "P09")
def s_rnsscaler_new(I):
    one = bsym("isone")
    return Case([Ref(I.new_cell(rns_ob(I, B1, L1))), Ref(I.new_cell(rns_ob(I, B2, L2))), factor(I, NU, DE, one)],
                ("fields", dict(table_fields(I, B1, L1, B2, L2, NU, DE, one, shift_of(B1, nq(B1) - L1)), theta_garner_shift=shift_of(B1, nq(B1) - L1))))


# ------------------------------------------------ the scaler as an object
def rnss(B1, l1, B2, l2, nu, de):
    return atom("rnss", B1, N(l1), B2, N(l2), N(nu), N(de))


REBUILD["rnss"] = lambda b1, l1, b2, l2, nu, de: N(rnss(interp._rb_key(b1), l1, interp._rb_key(b2), l2, nu, de))


def factor_of(I, x):
    """(numerator, denominator) of a ScalingFactor made by its constructor"""
    x = I.expand(I.rd(x) if isinstance(x, Ref) else x)
    if not isinstance(x, Agg):
        return None
    nu, de, one = [x.f[I.fieldindex(x.ty, f)] for f in ("numerator", "denominator", "is_one")]
    if not isinstance(nu, Poly) or not isinstance(de, Poly) or not isinstance(one, Bl) or not prove_ge0(de - 1) or not prove_ge0(nu):
        return None
    e = eq(nu, de)
    if one is not e and (decide(one) is None or decide(one) is not decide(e)):
        return None
    return nu, de


def c_rnsscaler_new(I, args, cal, ty):
    a, b = I.rd(args[0]), I.rd(args[1])
    f = factor_of(I, args[2])
    if f is None or not all(isinstance(x, Ob) and x.key.op == "rnsx" for x in (a, b)):
        return NI
    return Ob(rnss(*a.key.args, *b.key.args, *f), adt_ty(I, "rns::RnsScaler"))


SPECS["rns::RnsScaler::new"].contract = c_rnsscaler_new


def c_rnsscale(I, args, cal, ty):
    s = I.rd(args[0])
    x = I.rd(args[1])
    if not (isinstance(s, Ob) and s.key.op == "rnss" and isinstance(x, (Arr, Lst, Cat)) and isinstance(args[2], Ref)):
        return NI
    Ba, la, Bb, lb_, nu, de = s.key.args
    n1, n2 = nq(Ba) - la, nq(Bb) - lb_
    o = I.rd(args[2])
    st = I.num(args[3])
    if not isinstance(o, (Arr, Lst, Cat)):
        return NI
    m = alen(o)
    v = fresh_ix(n1)
    with assume(ge0(n1 - 1 - N(v)), ge0(N(v))):
        e = aget(x, N(v))
        if not isinstance(e, Poly) or not prove_ge0(e) or not prove_ge0(q(Ba, N(v)) - 1 - e):
            return NI
    require(I, eq(alen(x), n1))
    require(I, ge0(n2 - st - m))
    require(I, ge0(m - 1))
    val = srd(nu, de, prod_q(Ba, n1), crt(Ba, n1, lambda r: aget(x, r)))
    w = fresh_ix(m)
    I.write(args[2], Arr(m, w, mod(val, q(Bb, st + N(w)))))
    return UNIT


SPECS["rns::RnsScaler::scale"].contract = c_rnsscale


def expand_rqs(I, x):
    k = x.key
    if k.op != "rqs":
        return None
    Ba, la, Bb, lb_, nu, de = k.args
    return struct(I, "rq::RqScaler", **{"from": ctx_ob(I, Ba, la), "to": ctx_ob(I, Bb, lb_),
                  "rns_scaler": Ob(rnss(*k.args), adt_ty(I, "rns::RnsScaler")), "scaling_factor": factor(I, nu, de, eq(nu, de)),
                  "number_common_moduli": N(atom("ncm", k)) if nu is de else ite(eq(nu, de), N(atom("ncm", k)), ZERO)})


spec_mod.EXPANDERS.insert(0, expand_rqs)
REBUILD["ncm"] = lambda k: N(atom("ncm", interp._rb_key(k)))
def ev_ncm(env, a, sc):
    Ba, la, Bb, lb_ = a.args[0].args[:4]
    n = min(env.val(nq(Ba) - la, sc), env.val(nq(Bb) - lb_, sc))
    k = 0
    while k < n and env.val(q(Ba, k), sc) == env.val(q(Bb, k), sc):
        k += 1
    return k


ev.EVALS["ncm"] = ev_ncm
BOUND_HOOK["ncm"] = lambda a: ([ZERO], [nq(a.args[0].args[0]) - a.args[0].args[1], nq(a.args[0].args[2]) - a.args[0].args[3]])


def ncommon():
    """length of the common prefix of the two chains of moduli"""
    n1, n2 = nq(B1) - L1, nq(B2) - L2
    m = pmin(n1, n2)
    kap = T.fresh("kc", 0)
    return loops.mk_first(kap.single_atom(), bor(ge0(kap - m), bnot(eq(q(B1, kap), q(B2, kap)))), m)


def c_rqscaler_new(I, args, cal, ty):
    a, b = I.rd(args[0]), I.rd(args[1])
    f = factor_of(I, args[2])
    if f is None or not all(isinstance(x, Ob) and x.key.op == "cx" for x in (a, b)):
        return NI
    require(I, eq(basedeg(a.key.args[0]), basedeg(b.key.args[0])))
    return Ob(rqs(*a.key.args, *b.key.args, *f), adt_ty(I, "rq::RqScaler"))


@spec("rq::RqScaler::new", "P09", contract=c_rqscaler_new)
def s_rqscaler_new(I):
    cs = []
    B3 = base("R", "D2")
    L3 = sym("lx", 0, nq(B3) - 1)
    for nu, de, lab in ((ONE, ONE, "factor one"), (NU, 2 * NU + DE, "other factor")):
        one = TRUE if nu is de else FALSE
        cs.append(Case([Ref(I.new_cell(ctx_ob(I, B1, L1))), Ref(I.new_cell(ctx_ob(I, B2, L2))), factor(I, nu, de, one)],
                       ("fields", {"from": ctx_ob(I, B1, L1), "to": ctx_ob(I, B2, L2), "scaling_factor": factor(I, nu, de, one),
                                   "rns_scaler": Ob(rnss(B1, L1, B2, L2, nu, de), adt_ty(I, "rns::RnsScaler")),
                                   "number_common_moduli": ncommon() if nu is de else ZERO}), label=lab))
        cs.append(Case([Ref(I.new_cell(ctx_ob(I, B1, L1))), Ref(I.new_cell(ctx_ob(I, B3, L3))), factor(I, nu, de, one)], diverges=True, pre=[bnot(eq(pow2(basedeg(B1)), pow2(basedeg(B3))))], label="degrees differ, " + lab))
    return cs


@spec("rq::RqScaler::scale", "P09", contract=spec_bfv.c_scale)
def s_rqscale(I):
    cs = []
    for nu, de in ((ONE, ONE), (NU, 2 * NU + DE)):
        k = rqs(B1, L1, B2, L2, nu, de)
        n1, n2 = nq(B1) - L1, nq(B2) - L2
        C = N(atom("ncm", k)) if nu is de else ZERO
        sc = Ref(I.new_cell(spec_bfv.scaler_ob(I, *k.args)))
        g = spec_bfv.scale_f(lambda i, j: pc("a", B1, i, j), B1, L1, B2, nu, de)
        f = (lambda g, C: lambda i, j: ite(ge0(C - 1 - i), pc("a", B1, i, j), g(i, j)))(g, C)
        lab = "factor one" if nu is de else "other factor"
        cs.append(Case([sc, sympoly(I, "a", "PowerBasis", B=B1, l=L1)], PolyIs(I, ctx_ob(I, B2, L2), "PowerBasis", RowsIs(B2, L2, f)), label=lab))
        fb = spec_poly.nttrows(lambda i, j: pc("a", B1, i, j), B1, L1, "nttb")
        g2 = spec_bfv.scale_f(fb, B1, L1, B2, nu, de)
        # the common rows need no special treatment here: the recursive call is replaced by its contract
        cs.append(Case([sc, sympoly(I, "a", "Ntt", B=B1, l=L1)], PolyIs(I, ctx_ob(I, B2, L2), "Ntt", RowsIs(B2, L2, spec_poly.nttrows(g2, B2, L2, "nttf"))), label="evaluation form, " + lab))
        lo_ = sym("ly", 0, nq(B1) - 1)
        cs.append(Case([sc, sympoly(I, "a", "PowerBasis", B=B1, l=lo_)], diverges=True, pre=[bnot(eq(lo_, L1))], label="ring differs, " + lab))
    return cs
