"""L3: the encryption scheme: parameters, keys, encryption, homomorphic operations."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *
import spec_rq
from spec_rq import QB, LV, NN, LG, pc, symrows, sympoly, RowsIs, PolyIs, ctxref, mkpoly, mkrep, parts, ntt_row, subst_coef
import spec_poly
from spec_poly import pv, nttrows, mkrows, rep_name, ctx_of
import spec_rns
from spec_rns import prod_q, crt, garner

NQ = nq(QB)
PK = atom("par", "P", QB)


def tm(k=PK):
    return N(atom("tm", k))


BOUND_HOOK["tm"] = lambda a: ([2 * pow2(basedeg(a.args[0].args[1])) + 1], [N((1 << 62) - 1)])
VARIANCE = N(atom("variance", PK))
BOUND_HOOK["variance"] = lambda a: ([ONE], [N(16)])
TM = tm()


def ebase(B, l):
    return atom("eb", B, N(l))


REBUILD["eb"] = lambda b, l: N(ebase(interp._rb_key(b), l))


def struct(I, path, **kw):
    """struct value with the given fields (by name), the others symbolic"""
    ad = I.P.adts.get(path)
    if ad is None:
        raise Unmodelled("no struct %s" % path)
    out = []
    for nm, ty in ad["variants"][0]["fields"]:
        if nm in kw:
            out.append(kw.pop(nm))
        else:
            out.append(I.mkval(fld(atom("arg", "other:" + path), nm), ty))
    if kw:
        raise Unmodelled("%s has no field %s" % (path, ", ".join(kw)))
    return Agg(adt_ty(I, path), out)


# ------------------------------------------------------------------ scalers
def rqs(B1, l1, B2, l2, num_, den):
    return atom("rqs", B1, N(l1), B2, N(l2), N(num_), N(den))


REBUILD["rqs"] = lambda b1, l1, b2, l2, nu, de: N(rqs(interp._rb_key(b1), l1, interp._rb_key(b2), l2, nu, de))


def scaler_ob(I, B1, l1, B2, l2, num_, den):
    return Ob(rqs(B1, l1, B2, l2, num_, den), adt_ty(I, "rq::RqScaler"))


def srd(nu, de, Q, x):
    """x' * nu / de rounded to the nearest integer (halves up), x' being the
    representative of x modulo Q in (-Q/2, Q/2]"""
    nu, de, Q, x = N(nu), N(de), N(Q), N(x)
    if nu is de:
        nu = de = ONE
    return N(atom("srd", nu, de, Q, x))


REBUILD["srd"] = srd


def _srdb(a):
    nu, de, Q, x = a.args
    if prove_ge0(nu) and prove_ge0(Q - 1) and prove_ge0(de - 1):
        i = pinv(de)
        h = nu if Q is de else nu * Q * i if i is not None else None
        if h is not None:
            # |x'| <= Q/2, and rounding moves by at most 1/2
            return [-(h + 1) * N(Fraction(1, 2))], [(h + 1) * N(Fraction(1, 2))]
    return [], []


BOUND_HOOK["srd"] = _srdb


def ev_srd(env, a, sc):
    nu, de, Q, x = (env.val(z, sc) for z in a.args)
    if de <= 0 or Q <= 0:
        raise ev.Undef("division by zero")
    if 2 * x > Q:
        x -= Q
    return (2 * nu * x + de) // (2 * de)


ev.EVALS["srd"] = ev_srd


def scale_f(f, B1, l1, B2, nu, de):
    n = nq(B1) - l1
    return lambda i, j: mod(srd(nu, de, prod_q(B1, n), crt(B1, n, lambda r: f(r, j))), q(B2, i))


# ------------------------------------------------------------------ parameters
def params_ob(I, k=PK):
    return Ob(k, adt_ty(I, "bfv::BfvParameters"))


def pref(I):
    return Ref(I.new_cell(params_ob(I)))


def slot_index(i, lg):
    """position of slot i: exponents 3^i (first row) and -3^i (second row)"""
    n = pow2(lg)
    h = pow2(lg - 1)
    g1 = mod(powi(3, i), 2 * n)
    g2 = 2 * n - mod(powi(3, i - h), 2 * n)
    return ite(ge0(h - 1 - i), brv(fdiv(g1 - 1, N(2)), lg), brv(fdiv(g2 - 1, N(2)), lg))


def powi(b, e):
    v = fresh_ix(e)
    return mk_prod(v, N(e), N(b))


def sidx(k, i):
    """coefficient position of slot i; a permutation of [0, n) (spec of the constructor)"""
    i = N(i)
    sa = i.single_atom()
    if sa is not None and sa.op == "isidx" and sa.args[0] is k:
        return sa.args[1]
    return N(atom("sidx", k, i))


def isidx(k, x):
    x = N(x)
    sa = x.single_atom()
    if sa is not None and sa.op == "sidx" and sa.args[0] is k:
        return sa.args[1]
    return N(atom("isidx", k, x))


for _o, _f in (("sidx", sidx), ("isidx", isidx)):
    REBUILD[_o] = lambda k, i, f=_f: f(interp._rb_key(k), i)
    BOUND_HOOK[_o] = lambda a: ([ZERO], [pow2(basedeg(a.args[0].args[1])) - 1])
loops.INVERT["sidx"] = lambda a, v: (isidx(a.args[0], v), band(ge0(v), ge0(pow2(basedeg(a.args[0].args[1])) - 1 - v)))


def _slots(n):
    rv = lambda x: int(bin(x)[2:].zfill(n.bit_length() - 1)[::-1], 2)
    out = []
    for s in (1, -1):
        for i in range(n // 2):
            out.append(rv((s * pow(3, i, 2 * n) % (2 * n) - 1) // 2))
    return out


def ev_sidx(inverse):
    def f(env, a, sc):
        n = 1 << env.val(basedeg(a.args[0].args[1]), sc)
        i = env.val(a.args[1], sc)
        if not 0 <= i < n:
            raise ev.Undef("slot")
        s = _slots(n)
        return s.index(i) if inverse else s[i]
    return f


ev.EVALS["sidx"] = ev_sidx(False)
ev.EVALS["isidx"] = ev_sidx(True)
REBUILD["par"] = lambda n, b: N(atom("par", n, interp._rb_key(b)))
REBUILD["tm"] = lambda k: tm(interp._rb_key(k))
REBUILD["variance"] = lambda k: N(atom("variance", interp._rb_key(k)))


def delta_f(B, t):
    return lambda i, j: inv(mod(-t, q(B, i)), q(B, i))


def expand_par(I, x):
    k = x.key
    if k.op != "par":
        return None
    B = k.args[1]
    n, lg, t = nq(B), basedeg(B), tm(k)

    def table(f):
        v = fresh_ix(n)
        return Arr(n, v, f(N(v)))

    def mulp(i):
        E = ebase(B, i)
        pr = prod_q(B, n - i)
        return struct(I, "bfv::MultiplicationParameters", **{"from": ctx_ob(I, B, i), "to": ctx_ob(I, E, 0),
                      "up_scaler": scaler_ob(I, B, i, E, 0, 1, 1), "down_scalar": scaler_ob(I, E, 0, B, i, t, pr)})
    vals = {
        "degree": lambda: pow2(lg), "plaintext_modulus_u64": lambda: t, "pt_ctx": lambda: ctx_ob(I, B, n - 1),
        "ciphertext_moduli": lambda: table(lambda i: q(B, i)),
        "pt_ntt": lambda: None,
        "q_ctxs": lambda: table(lambda i: ctx_ob(I, B, i)),
        "e_ctxs": lambda: table(lambda i: ctx_ob(I, ebase(B, i), 0)),
        "mul_params": lambda: table(mulp),
        "delta_ts": lambda: table(lambda i: mkpoly(I, ctx_ob(I, B, i), "Ntt", mkrows(B, i, delta_f(B, t)))),
        "q_mod_ts": lambda: table(lambda i: mod(prod_q(B, n - i), t)),
        "scalars": lambda: table(lambda i: scaler_ob(I, B, i, B, n - 1, t, prod_q(B, n - i))),
        "variance": lambda: N(atom("variance", k)),
    }
    ad = I.P.adts.get("bfv::BfvParameters")
    out = []
    for nm, ty in ad["variants"][0]["fields"]:
        if nm == "pt_ntt":
            out.append(En(ty, ONE, {0: (), 1: (Ob(nop(t, lg), adt_ty(I, "ntt::NttOperator")),)}))
        elif nm == "matrix_reps_index_map":
            v = fresh_ix(pow2(lg))
            out.append(Arr(pow2(lg), v, sidx(k, N(v))))
        elif nm in vals:
            out.append(vals[nm]())
        else:
            out.append(I.mkval(fld(k, nm), ty))
    return Agg(x.ty, out)


spec_mod.EXPANDERS.insert(0, expand_par)


# ------------------------------------------------------------------ values
def skc(j):
    return N(atom("skc", N(j)))


BOUND_HOOK["skc"] = lambda a: ([N(-(1 << 62))], [N(1 << 62)])


def secret(I):
    v = fresh_ix(NN)
    return Ref(I.new_cell(struct(I, "bfv::SecretKey", params=params_ob(I), coeffs=Arr(NN, v, skc(N(v))))))


def sk_f(B=QB):
    """transform of the secret key"""
    return nttrows(lambda i, j: mod(skc(j), q(B, i)), B, ZERO, "nttf")


def symp(I, name, rep="Ntt", B=QB, l=LV):
    return mkpoly(I, ctx_ob(I, B, l), rep, symrows(name, B, l))


def cipher(I, name, K=2, l=LV, mut=False, rep="Ntt"):
    return Ref(I.new_cell(cipherv(I, name, K, l, rep)), (), mut)


def cipherv(I, name, K=2, l=LV, rep="Ntt"):
    return struct(I, "bfv::BfvCipherText", params=params_ob(I), level=l,
                  cts=Lst([symp(I, "%s%d" % (name, k), rep, QB, l) for k in range(K)]))


def PolyW(I, f, rep="Ntt", B=QB, l=LV):
    return PolyIs(I, ctx_ob(I, B, l), rep, RowsIs(B, l, f))


def CtIs(I, fs, l=LV, rep="Ntt"):
    return ("fields", {"params": params_ob(I), "level": l, "cts": Items([PolyW(I, f, rep, QB, l) for f in fs])})


def cc(name, k):
    return lambda i, j: pc("%s%d" % (name, k), QB, i, j)


def mq(e, i, B=QB):
    return mod(e, q(B, i))


def plain(I, l=LV, enc="Poly", name="m", hi=None, n=NN):
    v = fresh_ix(n)
    ad = I.P.adts["bfv::Encoding"]
    d = [x["name"] for x in ad["variants"]].index(enc)
    return Ref(I.new_cell(struct(I, "bfv::Plaintext", params=params_ob(I), level=l,
                                 values=Arr(n, v, pval(name, N(v))), encoding=En(adt_ty(I, "bfv::Encoding"), N(d), {k: () for k in range(3)}))))


def pval(name, j):
    return N(atom("pval", name, N(j)))


BOUND_HOOK["pval"] = lambda a: ([ZERO], [TM - 1])

# ------------------------------------------------------------------ ciphertext arithmetic
CT = "bfv::BfvCipherText"


def key2(tr, m, rhs, slf="&" + CT):
    return "<%s as std::ops::%s<%s>>::%s" % (slf, tr, rhs, m)


def ctct(tr, m, op):
    @spec(key2(tr, m, "&" + CT), "P15")
    def s(I):
        cs = []
        for K in (2, 3):
            cs.append(Case([cipher(I, "a", K), cipher(I, "b", K)],
                           CtIs(I, [(lambda k: lambda i, j: mq(op(cc("a", k)(i, j), cc("b", k)(i, j)), i))(k) for k in range(K)]), label="%d components" % K))
        l2 = sym("lv2", 0, nq(QB) - 1)
        cs.append(Case([cipher(I, "a", 2), cipher(I, "b", 2, l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="levels differ"))
        cs.append(Case([cipher(I, "a", 2), cipher(I, "b", 3)], diverges=True, label="numbers of components differ"))
        return cs


ctct("Add", "add", lambda a, b: a + b)
ctct("Sub", "sub", lambda a, b: a - b)


@spec(key2("Add", "add", "&rq::Poly"), "P15")
def s_ctaddp(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    return [Case([cipher(I, "a", 2), sympoly(I, "p", "Ntt")], CtIs(I, [lambda i, j: mq(cc("a", 0)(i, j) + pc("p", QB, i, j), i), cc("a", 1)])),
            Case([cipher(I, "a", 2), sympoly(I, "p", "Ntt", l=l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="rings differ")]


@spec(key2("Mul", "mul", "&rq::Poly"), "P15")
def s_ctmulp(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    return [Case([cipher(I, "a", K), sympoly(I, "p", "Ntt")],
                 CtIs(I, [(lambda k: lambda i, j: mq(cc("a", k)(i, j) * pc("p", QB, i, j), i))(k) for k in range(K)]), label="%d components" % K) for K in (2, 3)] + [
            Case([cipher(I, "a", 2), sympoly(I, "p", "Ntt", l=l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="rings differ"),
            Case([cipher(I, "a", 2), sympoly(I, "p", "PowerBasis")], diverges=True, label="polynomial in coefficient form")]


@spec(key2("Mul", "mul", "&num_bigint::BigUint"), "P15")
def s_ctmulb(I):
    b = sym("Bb", 0)
    return [Case([cipher(I, "a", K), Ref(I.new_cell(b))],
                 CtIs(I, [(lambda k: lambda i, j: mq(cc("a", k)(i, j) * b, i))(k) for k in range(K)]), label="%d components" % K) for K in (2, 3)]


def plain_f(name="m"):
    return nttrows(lambda i, j: mod(pval(name, j), q(QB, i)), QB, LV, "nttf")


@spec(key2("Mul", "mul", "&bfv::Plaintext"), "P15")
def s_ctmulpt(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    return [Case([cipher(I, "a", K), plain(I)],
                 CtIs(I, [(lambda k: lambda i, j: mq(cc("a", k)(i, j) * plain_f()(i, j), i))(k) for k in range(K)]), label="%d components" % K) for K in (2, 3)] + [
            Case([cipher(I, "a", 2), plain(I, l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="levels differ")]


# ------------------------------------------------------------------ plaintexts
def vref(I, name, n=NN):
    v = fresh_ix(n)
    return Ref(I.new_cell(Arr(n, v, pval(name, N(v)))))


def encd(I, e):
    names = [x["name"] for x in I.P.adts["bfv::Encoding"]["variants"]]
    return En(adt_ty(I, "bfv::Encoding"), N(names.index(e)), {k: () for k in range(len(names))})


def PtIs(I, f, l=LV, enc=None):
    d = {"params": params_ob(I), "level": l, "values": Rows(NN, f)}
    if enc:
        d["encoding"] = encd(I, enc)
    return ("fields", d)


def row_ntt(kind, p, f):
    w = fresh_ix(NN)
    return ntt_row(kind, p, LG, Arr(NN, w, f(N(w))))


@spec("bfv::Plaintext::new", "P12")
def s_ptnew(I):
    n = sym("nv", 0, NN)
    simd = row_ntt("nttb", TM, lambda x: pval("v", isidx(PK, x)))
    return [Case([pref(I), vref(I, "v"), LV, encd(I, "Poly")], PtIs(I, lambda j: pval("v", j), enc="Poly"), label="coefficients"),
            Case([pref(I), vref(I, "v", n), LV, encd(I, "Poly")], PtIs(I, lambda j: ite(ge0(n - 1 - j), pval("v", j), ZERO), enc="Poly"), label="fewer coefficients than the degree"),
            Case([pref(I), vref(I, "v"), LV, encd(I, "SIMD")], PtIs(I, simd, enc="SIMD"), label="slots"),
            Case([pref(I), vref(I, "v"), LV, encd(I, "None")], diverges=True, label="no encoding")]


@spec("bfv::Plaintext::decode", "P12")
def s_ptdec(I):
    simd = row_ntt("nttf", TM, lambda x: pval("m", x))
    return [Case([plain(I, enc="Poly")], Rows(NN, lambda j: pval("m", j)), label="coefficients"),
            Case([plain(I, enc="SIMD")], Rows(NN, lambda j: simd(sidx(PK, j))), label="slots"),
            Case([plain(I, enc="None")], diverges=True, label="no encoding")]


def delta_m(name="m", l=LV):
    """round-free scaling: (q mod t) m (-t)^-1 modulo every modulus"""
    t = TM
    s = nttrows(lambda i, j: mod(mod(pval(name, j) * mod(prod_q(QB, NQ - l), t), t), q(QB, i)), QB, l, "nttf")
    d = delta_f(QB, t)
    return lambda i, j: mod(s(i, j) * d(i, j), q(QB, i))


def c_topoly(I, args, cal, ty):
    p = I.expand(I.rd(args[0]))
    return NI


@spec("bfv::Plaintext::to_poly", "P12")
def s_ptpoly(I):
    return Case([plain(I)], PolyW(I, delta_m()))


# ------------------------------------------------------------------ encryption
@spec("bfv::BfvParameters::ctx_level", "P11")
def s_ctxlevel(I):
    return Case([pref(I), ctxref(I)], Pred(lambda g: some_is(I, g, LV)))


def some_is(I, g, x):
    g = I.expand(g)
    if not isinstance(g, En):
        return [("option", None)]
    return [("is found", eq(g.d, ONE)), ("level", (g.pl[1][0], x))]


def require(I, cond):
    """precondition the callee asserts: the path where it fails panics"""
    d = decide(cond)
    if d is True:
        return
    I.panics.append((I.where(), "assert", tuple(F.stack) + (bnot(cond),)))
    if d is False:
        raise Diverge()
    push_fact(cond)


def c_cbd(I, args, cal, ty):
    n, v = num(I, args[0]), num(I, args[1])
    if n is None or v is None:
        return NI
    require(I, band(ge0(v - 1), ge0(N(16) - v)))
    g = models.gen_of(I, args[2])
    st = models.site(I)
    x = fresh_ix(n)
    return Arr(n, x, N(atom("sml", v, g, st, *(I.kstack + [N(x)]))))


BOUND_HOOK["sml"] = lambda a: ([-2 * a.args[0]], [2 * a.args[0]])


def _resml(*a):
    return N(atom("sml", *[interp._rb_key(x) if isinstance(x, Poly) and i == 1 else x for i, x in enumerate(a)]))


REBUILD["sml"] = _resml
SPECS["utils::sample_vec_cbd"] = FnSpec("utils::sample_vec_cbd", (), None, contract=c_cbd)


def atoms_in(e, op):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(x)
            continue
        if isinstance(x, Poly):
            st.extend(x.atoms())
            continue
        if hasattr(x, "op") and hasattr(x, "args"):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == op:
                out.append(x)
            st.extend(x.args)
    return out


def fresh_mask(e):
    """e is a uniform draw of a generator expanded from a seed that is itself freshly drawn"""
    if not isinstance(e, Poly):
        return None
    ds = atoms_in(e, "draw")
    if not ds and not any(atoms_in(e, o) for o in ("phi", "sel", "top")):
        return "the mask %s contains no random draw" % short(e)
    sa = e.single_atom()
    if sa is not None and sa.op == "draw" and sa.args[0] is ZERO:
        g = sa.args[2]
        if g.op == "rng" and g.args[0] == "thread":
            return TRUE
        if g.op == "rng" and g.args[0] == "seeded":
            if any(d.args[2].op == "rng" and d.args[2].args[0] == "thread" for d in atoms_in(g, "draw")):
                return TRUE
            if not atoms_in(g, "draw"):
                return "the generator of the mask is seeded with a fixed value"
    return None


def noise_items(I, resid, B, i, variance=None):
    """resid(i, j): transform-form residual that has to be fresh noise of the parameters' variance"""
    variance = VARIANCE if variance is None else variance
    j = fresh_ix(NN)
    r = resid(N(i), N(j))
    if not isinstance(r, Poly):
        return [("noise", None)]
    sm = atoms_in(r, "sml")
    out = []
    if not sm:
        if any(atoms_in(r, o) for o in ("phi", "sel", "top", "draw")):
            return [("noise", None)]
        out.append(("fresh noise is added", "no noise term in %s" % short(r)))
        return out
    for a in sm:
        out.append(("noise variance", (a.args[0], variance)))
        g = a.args[1]
        if g.op == "rng" and g.args[0] == "seeded" and not atoms_in(g, "draw"):
            out.append(("noise generator", "noise drawn from a generator with a fixed seed"))
    sa = r.single_atom()
    if sa is not None and sa.op == "nttf" and sa.args[0] is q(B, i):
        b = sa.args[2].single_atom()
        if b is not None and (b.op == "sml" or b.op == "mod" and b.args[1] is q(B, i) and b.args[0].single_atom() in sm):
            out.append(("what remains is one fresh noise polynomial", TRUE))
            return out
    f = nttrows(resid, B, ZERO, "nttb")
    x = f(N(i), N(j))
    out.append(("what remains is one fresh noise polynomial", bor(ge0(2 * variance - x), ge0(x - q(B, i) + 2 * variance)), [ge0(N(i)), ge0(N(j)), ge0(NN - 1 - N(j))]))
    return out


def phase_pred(I, want, l=LV):
    """ciphertext (c0, c1): c1 fresh mask, c0 + c1 s - want fresh noise"""
    def f(g):
        g = I.expand(I.rd(g) if isinstance(g, Ref) else g)
        if not isinstance(g, Agg):
            return [("ciphertext", None)]
        out = [("level", (g.f[I.fieldindex(g.ty, "level")], l)), ("parameters", (g.f[I.fieldindex(g.ty, "params")], params_ob(I)))]
        cts = g.f[I.fieldindex(g.ty, "cts")]
        if not isinstance(cts, (Arr, Lst, Cat)):
            return out + [("components", None)]
        out.append(("two components", (alen(cts), N(2))))
        if alen(cts).const() != 2:
            return out
        return out + pair_items(I, aget(cts, ZERO), aget(cts, ONE), want, l)
    return Pred(f)


def pair_items(I, c0, c1, want, l, B=QB):
    a, b = pv(I, c1), pv(I, c0)
    if a is None or b is None:
        return [("polynomials", None)]
    out = []
    for nm, x in (("c0", b), ("c1", a)):
        out.append((nm + " ring", (x.ob, ctx_ob(I, B, l))))
        if x.rep != "Ntt":
            out.append((nm + " representation", "%s is labelled %s" % (nm, x.rep)))
            return out
    if a.B is not B or b.B is not B:
        return out
    i = fresh_ix(nq(B) - l)
    j = fresh_ix(NN)
    out.append(("mask", fresh_mask(a.f(N(i), N(j)))))
    s = sk_f(B)
    out += noise_items(I, lambda i, j: mod(b.f(i, j) + a.f(i, j) * s(i, j) - want(i, j), q(B, i)), B, N(i))
    return out


@spec("bfv::SecretKey::encrypt_poly", "P13")
def s_encpoly(I):
    return [Case([secret(I), sympoly(I, "p", "Ntt")], phase_pred(I, lambda i, j: pc("p", QB, i, j))),
            Case([secret(I), sympoly(I, "p", "PowerBasis")], diverges=True, label="polynomial in coefficient form")]


@spec("bfv::SecretKey::encrypt", "P13")
def s_enc(I):
    return Case([secret(I), plain(I)], phase_pred(I, delta_m()))


# ------------------------------------------------------------------ decryption
def phase_f(name, K, l=LV):
    s = sk_f()

    def f(i, j):
        e = cc(name, 0)(i, j)
        for k in range(1, K):
            e = e + cc(name, k)(i, j) * s(i, j) ** k
        return mod(e, q(QB, i))
    return f


def dec_f(K, l=LV):
    ph = nttrows(phase_f("c", K, l), QB, l, "nttb")
    return lambda j: mod(srd(TM, prod_q(QB, NQ - l), prod_q(QB, NQ - l), crt(QB, NQ - l, lambda r: ph(r, j))), TM)


def c_scale(I, args, cal, ty):
    s = I.rd(args[0])
    a = pv(I, args[1])
    if not (isinstance(s, Ob) and s.key.op == "rqs") or a is None or a.rep not in ("Ntt", "PowerBasis"):
        return NI
    B1, l1, B2, l2, nu, de = s.key.args
    if a.B is not B1 or not a.canonical():
        return NI
    require(I, eq(a.l, l1))
    f = a.f
    if a.rep == "Ntt":
        f = nttrows(f, B1, l1, "nttb")
    g = scale_f(f, B1, l1, B2, nu, de)
    if a.rep == "Ntt":
        g = nttrows(g, B2, l2, "nttf")
    return mkpoly(I, ctx_ob(I, B2, l2), a.rep, mkrows(B2, l2, g))


SPECS["rq::RqScaler::scale"] = FnSpec("rq::RqScaler::scale", (), None, contract=c_scale)


@spec("bfv::SecretKey::decrypt", "P14")
def s_dec(I):
    pre = [ge0(q(QB, 0) - 2 * TM - 1)]
    return [Case([secret(I), cipher(I, "c", K)], PtIs(I, dec_f(K)), pre=pre, label="%d components" % K, seeds=range(1, 40)) for K in (2, 3, 4)]


@spec("bfv::SecretKey::decrypt_trial", "P14")
def s_dectrial(I):
    s = sk_f()
    l2 = sym("lv2", 0, nq(QB) - 1)
    return [Case([secret(I), sympoly(I, "x", "Ntt"), sympoly(I, "y", "Ntt")], PolyW(I, lambda i, j: mq(pc("x", QB, i, j) + pc("y", QB, i, j) * s(i, j), i))),
            Case([secret(I), sympoly(I, "x", "Ntt"), sympoly(I, "y", "Ntt", l=l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="rings differ")]


@spec("bfv::SecretKey::new", "P13")
def s_sknew(I):
    v = fresh_ix(NN)
    return Case([Arr(NN, v, skc(N(v))), pref(I)], ("fields", {"params": params_ob(I), "coeffs": Rows(NN, skc)}))


@spec("bfv::SecretKey::generate", "P13")
def s_skgen(I):
    def f(g):
        g = I.expand(I.rd(g) if isinstance(g, Ref) else g)
        if not isinstance(g, Agg):
            return [("key", None)]
        c = g.f[I.fieldindex(g.ty, "coeffs")]
        out = [("parameters", (g.f[I.fieldindex(g.ty, "params")], params_ob(I)))]
        if not isinstance(c, (Arr, Lst, Cat)):
            return out + [("coefficients", None)]
        out.append(("one coefficient per power", (alen(c), NN)))
        j = fresh_ix(NN)
        e = aget(c, N(j))
        if not isinstance(e, Poly):
            return out + [("coefficients", None)]
        sa = e.single_atom()
        if sa is not None and sa.op == "sml" and sa.args[1].op == "rng" and sa.args[1].args[0] == "thread":
            return out + [("coefficients drawn from the error distribution", TRUE), ("variance", (sa.args[0], VARIANCE))]
        if not atoms_in(e, "sml") and not atoms_in(e, "draw") and not any(atoms_in(e, o) for o in ("phi", "sel", "top")):
            return out + [("coefficients drawn at random", "secret key coefficient is %s" % short(e))]
        return out + [("coefficients", None)]
    return Case([pref(I)], Pred(f))


# ------------------------------------------------------------------ key switching
def kskv(I, name, l=LV, lk=None):
    """symbolic key-switching key for polynomials at level l"""
    lk = l if lk is None else lk
    n = NQ - l

    def comp(c):
        k = fresh_ix(n)
        i, j = fresh_ix(NQ - lk), fresh_ix(NN)
        return Arr(n, k, mkpoly(I, ctx_ob(I, QB, lk), "Ntt", Arr(NQ - lk, i, Arr(NN, j, kc(name, c, N(k), N(i), N(j))))))
    return struct(I, "ksk::Ksk", params=params_ob(I), c0=comp(0), c1=comp(1), ksk_context=ctx_ob(I, QB, lk), ct_context=ctx_ob(I, QB, l))


def kc(name, c, k, i, j):
    return N(atom("kc", name, c, QB, N(k), N(i), N(j)))


BOUND_HOOK["kc"] = lambda a: ([ZERO], [q(a.args[2], a.args[4]) - 1])


def ksref(I, name, l=LV):
    return Ref(I.new_cell(kskv(I, name, l)))


def switch_f(f, key, c, l=LV):
    """sum over k of NTT([f(k, .)]) * key_c[k], f in coefficient form"""
    def g(i, j):
        n = NQ - l
        k = fresh_ix(n)
        d = nttrows(lambda i2, w: mod(f(N(k), w), q(QB, i2)), QB, l, "nttf")
        return mod(mk_sum(k, n, d(i, j) * key(c, N(k), i, j)), q(QB, i))
    return g


def key_f(name):
    return lambda c, k, i, j: kc(name, c, k, i, j)


@spec("ksk::Ksk::key_switch", "P17")
def s_kswitch(I):
    f = lambda k, j: pc("p", QB, k, j)
    l2 = sym("lv2", 0, nq(QB) - 1)
    return [Case([ksref(I, "K"), sympoly(I, "p", "PowerBasis")],
                 Items2(PolyW(I, switch_f(f, key_f("K"), 0)), PolyW(I, switch_f(f, key_f("K"), 1)))),
            Case([ksref(I, "K"), sympoly(I, "p", "PowerBasis", l=l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="level differs"),
            Case([ksref(I, "K"), sympoly(I, "p", "Ntt")], diverges=True, label="transform form")]


def Items2(a, b):
    return ("pair", (a, b))


def ksk_pred(I, want, lc, lk):
    def f(g):
        g = I.expand(I.rd(g) if isinstance(g, Ref) else g)
        if not isinstance(g, Agg):
            return [("key", None)]
        F_ = lambda nm: g.f[I.fieldindex(g.ty, nm)]
        out = [("parameters", (F_("params"), params_ob(I))), ("ring of switched polynomials", (F_("ct_context"), ctx_ob(I, QB, lc))),
               ("ring of the key", (F_("ksk_context"), ctx_ob(I, QB, lk)))]
        c0, c1 = F_("c0"), F_("c1")
        n = NQ - lc
        for nm, c in (("c0", c0), ("c1", c1)):
            if not isinstance(c, (Arr, Lst, Cat)):
                return out + [(nm, None)]
            out.append((nm + " entries", (alen(c), n)))
        k = fresh_ix(n)
        i = fresh_ix(NQ - lk)
        return out + pair_items(I, aget(c0, N(k)), aget(c1, N(k)), lambda i, j: want(N(k), i, j), lk)
    return Pred(f)


@spec("ksk::Ksk::new", "P17")
def s_ksknew(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    fr = lambda i, j: pc("f", QB, i, j)

    def want(lc):
        return lambda k, i, j: mod(fr(i, j) * garner(QB, NQ - lc, k), q(QB, i))
    return [Case([secret(I), sympoly(I, "f", "Ntt"), LV, LV], ksk_pred(I, want(LV), LV, LV)),
            Case([secret(I), sympoly(I, "f", "Ntt"), l2, LV], ksk_pred(I, want(l2), l2, LV), label="different levels"),
            Case([secret(I), sympoly(I, "f", "PowerBasis"), LV, LV], diverges=True, label="coefficient form")]


def c_kswitch(I, args, cal, ty):
    g = I.expand(I.rd(args[0]))
    p = pv(I, args[1])
    if not isinstance(g, Agg) or p is None or p.rep != "PowerBasis" or not p.canonical():
        return NI
    try:
        F_ = lambda nm: g.f[I.fieldindex(g.ty, nm)]
        c0, c1, kx, cx_ = F_("c0"), F_("c1"), F_("ksk_context"), F_("ct_context")
    except TypeError:
        return NI
    kx, cx_ = (I.rd(x) if isinstance(x, Ref) else x for x in (kx, cx_))
    if not (isinstance(kx, Ob) and isinstance(cx_, Ob) and kx.key.op == cx_.key.op == "cx"):
        return NI
    B, l = cx_.key.args
    if p.B is not B or not (p.l is l or equal(p.l, l)[0]) or kx.key.args[0] is not B or not equal(kx.key.args[1], l)[0] or B is not QB:
        return NI
    n = nq(B) - l
    comps = []
    for c in (c0, c1):
        if not isinstance(c, (Arr, Lst, Cat)) or not equal(alen(c), n)[0]:
            return NI
        k = fresh_ix(n)
        x = pv(I, aget(c, N(k)))
        if x is None or x.rep != "Ntt" or x.B is not B or not equal(x.l, l)[0] or not x.canonical():
            return NI
        comps.append((k.args and k, x))

    def key(c, k, i, j):
        k0, x = comps[c]
        return subst(x.f(i, j), {k0: N(k)})
    return Agg("tuple", [mkpoly(I, cx_, "Ntt", mkrows(B, l, switch_f(p.f, key, c, l))) for c in (0, 1)])


SPECS["ksk::Ksk::key_switch"].contract = c_kswitch


def rlwe_v(I, name, l):
    """vector of ciphertexts"""
    n = NQ - l
    k = fresh_ix(n)

    def comp(c):
        i, j = fresh_ix(n), fresh_ix(NN)
        return mkpoly(I, ctx_ob(I, QB, l), "Ntt", Arr(n, i, Arr(NN, j, kc(name, c, N(k), N(i), N(j)))))
    return Arr(n, k, struct(I, CT, params=params_ob(I), level=l, cts=Lst([comp(0), comp(1)])))


@spec("ksk::Ksk::try_from_decomposed_rlwes", "P19")
def s_decomp(I):
    n = NQ - LV

    def comp(c):
        return Rows(n, lambda k: PolyW(I, lambda i, j: kc("r", c, k, i, j)))
    return Case([pref(I), Ref(I.new_cell(rlwe_v(I, "r", LV)))],
                ("fields", {"params": params_ob(I), "ct_context": ctx_ob(I, QB, LV), "ksk_context": ctx_ob(I, QB, LV), "c0": comp(0), "c1": comp(1)}))


def s_f():
    return sk_f()


def fields_of(I, g, *names):
    g = I.expand(I.rd(g) if isinstance(g, Ref) else g)
    if not isinstance(g, Agg):
        return None
    ix = [I.fieldindex(g.ty, n) for n in names]
    if any(i is None for i in ix):
        return None
    return [g.f[i] for i in ix]


def sub_preds(I, *subs):
    """conjunction of predicates on named fields"""
    def f(g):
        out = []
        for nm, p in subs:
            x = fields_of(I, g, nm)
            if x is None:
                out.append((nm, None))
            elif isinstance(p, Pred):
                out += [("%s %s" % (nm, it[0]),) + tuple(it[1:]) for it in p.f(x[0])]
            else:
                out.append((nm, (x[0], p)))
        return out
    return Pred(f)


@spec("rgsw::RgswCt::encrypt_poly", "P19")
def s_rgswp(I):
    s = s_f()
    m = lambda i, j: pc("m", QB, i, j)
    g = lambda k: garner(QB, NQ - LV, k)
    return [Case([secret(I), sympoly(I, "m", "Ntt")],
                 sub_preds(I, ("ksk0", ksk_pred(I, lambda k, i, j: mq(m(i, j) * s(i, j) * g(k), i), LV, LV)), ("ksk1", ksk_pred(I, lambda k, i, j: mq(m(i, j) * g(k), i), LV, LV)))),
            Case([secret(I), sympoly(I, "m", "PowerBasis")], diverges=True, label="coefficient form")]


@spec("rgsw::RgswCt::encrypt", "P19")
def s_rgsw(I):
    s = s_f()
    m = plain_f()
    g = lambda k: garner(QB, NQ - LV, k)
    return Case([secret(I), plain(I)],
                sub_preds(I, ("ksk0", ksk_pred(I, lambda k, i, j: mq(m(i, j) * s(i, j) * g(k), i), LV, LV)), ("ksk1", ksk_pred(I, lambda k, i, j: mq(m(i, j) * g(k), i), LV, LV))))


def inv_f(f, l=LV):
    return nttrows(f, QB, l, "nttb")


def rgswv(I, n0="K0", n1="K1", l=LV):
    return struct(I, "rgsw::RgswCt", ksk0=kskv(I, n0, l), ksk1=kskv(I, n1, l))


def extprod_f(name, n0="K0", n1="K1", l=LV):
    def f(c):
        a = switch_f(inv_f(cc(name, 1), l), key_f(n0), c, l)
        b = switch_f(inv_f(cc(name, 0), l), key_f(n1), c, l)
        return lambda i, j: mq(a(i, j) + b(i, j), i)
    return f


@spec("rgsw::RgswCt::external_product", "P19")
def s_ext(I):
    f = extprod_f("c")
    return Case([Ref(I.new_cell(rgswv(I))), cipher(I, "c")], Items2(PolyW(I, f(0)), PolyW(I, f(1))))


@spec("rgsw::RgswCt::try_from_ksks", "P19")
def s_tryksk(I):
    n = NQ - LV

    def ki(nm):
        return ("fields", {"ct_context": ctx_ob(I, QB, LV), "ksk_context": ctx_ob(I, QB, LV), **{"c%d" % c: (lambda c: Rows(n, lambda k: PolyW(I, lambda i, j: kc(nm, c, k, i, j))))(c) for c in (0, 1)}})
    return Case([ksref(I, "A"), ksref(I, "B")], ("fields", {"ksk0": ki("A"), "ksk1": ki("B")}))


# ------------------------------------------------------------------ relinearization, Galois keys
@spec("bfv::RelinearizationKey::new", "P16")
def s_rlknew(I):
    s = s_f()
    g = lambda k: garner(QB, NQ - LV, k)
    return Case([secret(I), LV], sub_preds(I, ("params", params_ob(I)), ("ksk", ksk_pred(I, lambda k, i, j: mq(s(i, j) * s(i, j) * g(k), i), LV, LV))))


def rlkv(I, name="R", l=LV):
    return struct(I, "bfv::RelinearizationKey", params=params_ob(I), ksk=kskv(I, name, l))


@spec("bfv::RelinearizationKey::relinearize_poly", "P16")
def s_rlpoly(I):
    cs = []
    for rep in ("PowerBasis", "Ntt"):
        f = lambda i, j: pc("p", QB, i, j)
        f = inv_f(f) if rep == "Ntt" else f
        cs.append(Case([Ref(I.new_cell(rlkv(I))), sympoly(I, "p", rep)], Items2(PolyW(I, switch_f(f, key_f("R"), 0)), PolyW(I, switch_f(f, key_f("R"), 1))), label=rep))
    return cs


HS = sym("hs", 0, NN - 1)
ES = 2 * HS + 1


def substv(I, e=ES):
    n = NN
    out = []
    for nm, ty in I.P.adts["rq::Substitution"]["variants"][0]["fields"]:
        if I.P.types[ty]["k"] == "uint":
            out.append(e)
        else:
            k = fresh_ix(n)
            out.append(Arr(n, k, brv(mod(fdiv(e - 1, N(2)) + N(k) * e, n), LG)))
    return Agg(adt_ty(I, "rq::Substitution"), out)


def sub_ntt(f, e=ES):
    h = fdiv(e - 1, N(2))
    return lambda i, x: f(i, brv(mod(h + brv(x, LG) * e, NN), LG))


@spec("bfv::GaliosKey::new", "P18")
def s_galnew(I):
    g = lambda k: garner(QB, NQ - LV, k)
    sp = nttrows(lambda i, x: subst_coef(lambda i, j: mod(skc(j), q(QB, i)), QB, i, x, ES, NN), QB, LV, "nttf")
    return Case([secret(I), Ref(I.new_cell(substv(I))), LV],
                sub_preds(I, ("galios_level", LV), ("substitution", substv(I)), ("gk", ksk_pred(I, lambda k, i, j: mq(sp(i, j) * g(k), i), LV, LV))), pre=[ge0(NQ - 2)])


def gkv(I, name="G", e=ES, l=LV):
    return struct(I, "bfv::GaliosKey", gk=kskv(I, name, l), substitution=substv(I, e), galios_level=l)


@spec("bfv::GaliosKey::relinearize", "P18")
def s_galrel(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    a = inv_f(sub_ntt(cc("c", 1)))
    k0, k1 = switch_f(a, key_f("G"), 0), switch_f(a, key_f("G"), 1)
    s0 = sub_ntt(cc("c", 0))
    return [Case([Ref(I.new_cell(gkv(I))), cipher(I, "c")], CtIs(I, [lambda i, j: mq(k0(i, j) + s0(i, j), i), k1])),
            Case([Ref(I.new_cell(gkv(I))), cipher(I, "c", 2, l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="levels differ")]


# ------------------------------------------------------------------ ciphertext multiplication
def up_f(f, l=LV):
    E = ebase(QB, l)
    return nttrows(scale_f(inv_f(f, l), QB, l, E, 1, 1), E, ZERO, "nttf")


def down_f(f, l=LV):
    E = ebase(QB, l)
    return nttrows(scale_f(nttrows(f, E, ZERO, "nttb"), E, ZERO, QB, TM, prod_q(QB, NQ - l)), QB, l, "nttf")


def tensor(A, B_, l=LV):
    E = ebase(QB, l)
    ua, ub = [up_f(f, l) for f in A], [up_f(f, l) for f in B_]

    def comp(k):
        def f(i, j):
            e = ZERO
            for x in range(len(A)):
                if 0 <= k - x < len(B_):
                    e = e + ua[x](i, j) * ub[k - x](i, j)
            return mod(e, q(E, i))
        return f
    return [down_f(comp(k), l) for k in range(len(A) + len(B_) - 1)]


@spec(key2("Mul", "mul", "&" + CT), "P16")
def s_ctmul(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    cs = [Case([cipher(I, "a", a), cipher(I, "b", b)], CtIs(I, tensor([cc("a", k) for k in range(a)], [cc("b", k) for k in range(b)])), label="%d x %d components" % (a, b), seeds=range(1, 9))
          for a, b in ((2, 2), (3, 2))]
    return cs + [Case([cipher(I, "a"), cipher(I, "b", 2, l2)], diverges=True, pre=[bnot(eq(LV, l2))], label="levels differ")]


@spec("bfv::multiply_with_strategy", "P16")
def s_mulrl(I):
    l2 = sym("lv2", 0, nq(QB) - 1)
    t = tensor([cc("a", 0), cc("a", 1)], [cc("b", 0), cc("b", 1)])
    a = inv_f(t[2])
    rl = lambda: Ref(I.new_cell(rlkv(I)))
    w = [(lambda c: lambda i, j: mq(t[c](i, j) + switch_f(a, key_f("R"), c)(i, j), i))(c) for c in (0, 1)]
    return [Case([cipher(I, "a"), cipher(I, "b"), rl()], CtIs(I, w), seeds=range(1, 9)),
            Case([cipher(I, "a"), cipher(I, "b", 2, l2), rl()], diverges=True, pre=[bnot(eq(LV, l2))], label="levels differ"),
            Case([cipher(I, "a", 3), cipher(I, "b", 2), rl()], diverges=True, label="three components"),
            Case([cipher(I, "a", 2), cipher(I, "b", 3), rl()], diverges=True, label="three components on the right")]
