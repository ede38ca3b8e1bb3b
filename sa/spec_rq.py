"""L2: polynomials in RNS form, coefficient level."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *

SPECS["rns::RnsContext::new"] = FnSpec("rns::RnsContext::new", (), None, contract=c_rns_new)
SPECS["rq::RqContext::new"] = FnSpec("rq::RqContext::new", (), None, contract=c_rq_new)

QB = base("Q")
LV = sym("lv", 0, nq(QB) - 1)
NN = pow2(basedeg(QB))
LG = basedeg(QB)


def rep_ix(I, name):
    ad = I.P.adts.get("rq::Representation")
    names = [v["name"] for v in ad["variants"]] if ad else ["PowerBasis", "Ntt", "NttShoup"]
    return names.index(name) if name in names else {"PowerBasis": 0, "Ntt": 1, "NttShoup": 2}[name]


def mkrep(I, r):
    ty = adt_ty(I, "rq::Representation")
    return En(ty, N(rep_ix(I, r)) if isinstance(r, str) else r, {0: (), 1: (), 2: ()})


def poly_layout(I):
    """field index of (context, representation, coefficients, rest) by type"""
    ty = adt_ty(I, "rq::Poly")
    fs = I.P.adts["rq::Poly"]["variants"][0]["fields"]
    lay = {}
    for k, f in enumerate(fs):
        s = I.P.types[f[1]]["s"]
        if "RqContext" in s:
            lay.setdefault("ctx", k)
        elif s.endswith("Representation"):
            lay.setdefault("rep", k)
        elif s.startswith("ndarray::ArrayBase"):
            lay.setdefault("rows", k)
    if set(lay) != {"ctx", "rep", "rows"}:
        raise Unmodelled("layout of Poly")
    return ty, fs, lay


def mkpoly(I, ctx, rep, rows):
    ty, fs, lay = poly_layout(I)
    out = []
    for k, f in enumerate(fs):
        if k == lay["ctx"]:
            out.append(ctx)
        elif k == lay["rep"]:
            out.append(mkrep(I, rep) if not isinstance(rep, En) else rep)
        elif k == lay["rows"]:
            out.append(rows)
        else:
            out.append(En(f[1], ZERO, {0: (), 1: (Top("unused"),)}))
    return Agg(ty, out)


def parts(I, v):
    """(context object, representation discriminant, coefficient matrix) of a Poly value"""
    v = I.rd(v) if isinstance(v, Ref) else v
    v = I.expand(v)
    if not isinstance(v, Agg):
        return None
    _, _, lay = poly_layout(I)
    c, r, m = v.f[lay["ctx"]], I.expand(v.f[lay["rep"]]), v.f[lay["rows"]]
    if isinstance(c, Ref):
        c = I.rd(c)
    if not isinstance(c, Ob) or not isinstance(r, En):
        return None
    return c, r.d, m


def PolyIs(I, ctx, rep, rows):
    """expectation on a Poly value"""
    ty, fs, lay = poly_layout(I)
    names = [f[0] for f in fs]
    return ("fields", {names[lay["ctx"]]: ctx, names[lay["rep"]]: mkrep(I, rep), names[lay["rows"]]: rows})


def pc(name, B, i, j):
    return N(atom("pc", name, B, N(i), N(j)))


BOUND_HOOK["pc"] = lambda a: ([ZERO], [q(a.args[1], a.args[2]) - 1])


def symrows(name, B, l):
    n = nq(B) - l
    m = pow2(basedeg(B))
    i, j = fresh_ix(n), fresh_ix(m)
    return Arr(n, i, Arr(m, j, pc(name, B, N(i), N(j))))


def sympoly(I, name, rep, B=QB, l=LV, mut=False):
    v = mkpoly(I, ctx_ob(I, B, l), rep, symrows(name, B, l))
    return Ref(I.new_cell(v), (), mut)


def RowsIs(B, l, f):
    n = nq(B) - l
    m = pow2(basedeg(B))
    return Rows(n, lambda i: Rows(m, lambda j: f(i, j)))


def ctxref(I, B=QB, l=LV):
    return Ref(I.new_cell(ctx_ob(I, B, l)))


# ------------------------------------------------------------------ NTT of a row
def ntt_row(kind, p, lg, arr):
    """closed form of the transformed row: element j"""
    n = pow2(lg)
    v = fresh_ix(n)
    e = aget(arr, N(v))
    if not isinstance(e, Poly):
        return None
    c0 = aget(arr, ZERO)
    with assume(ge0(N(v) - 1)):
        tail = resimp(e)
    if kind == "nttf" and tail is ZERO:
        return lambda j: c0
    lvl = T._maxlvl(e) + 1
    b = atom("bv", lvl)
    if b not in RANGE:
        RANGE[b] = ([ZERO], [])
    body = subst(e, {v: N(b)})
    # inverse of each other
    sa = body.single_atom()
    other = "nttb" if kind == "nttf" else "nttf"
    if sa is not None and sa.op == other and sa.args[0] is N(p) and sa.args[1] is N(lg) and sa.args[4] is N(b):
        ib, il = sa.args[2], sa.args[3]
        return lambda j: subst(ib, {atom("bv", il): N(j)})
    return lambda j: N(atom(kind, N(p), N(lg), body, lvl, N(j)))


for _k in ("nttf", "nttb"):
    BOUND_HOOK[_k] = lambda a: ([ZERO], [a.args[0] - 1])


def _rentt(kind):
    def f(p, lg, body, lvl, j):
        return N(atom(kind, p, lg, body, lvl, j))
    return f


REBUILD["nttf"] = _rentt("nttf")
REBUILD["nttb"] = _rentt("nttb")


def ev_ntt(fwd):
    def f(env, a, sc):
        p, lg, body, lvl, j = a.args
        p, lg, j = env.val(p, sc), env.val(lg, sc), env.val(j, sc)
        n = 1 << lg
        w = env.atom(atom("root", N(p), N(n)), {})
        s2 = dict(sc)
        b = atom("bv", lvl)
        xs = []
        for k in range(n):
            s2[b] = k
            xs.append(env.val(body, s2))
        rv = lambda i: int(bin(i)[2:].zfill(lg)[::-1], 2)
        if fwd:
            t = 2 * rv(j) + 1
            return sum(x * pow(w, t * k, p) for k, x in enumerate(xs)) % p
        wi = pow(w, -1, p)
        return sum(x * pow(wi, (2 * rv(k) + 1) * j, p) for k, x in enumerate(xs)) * pow(n, -1, p) % p
    return f


ev.EVALS["nttf"] = ev_ntt(True)
ev.EVALS["nttb"] = ev_ntt(False)


def c_ntt(kind):
    def c(I, args, cal, ty):
        op = I.rd(args[0])
        if not (isinstance(op, Ob) and op.key.op == "nop"):
            return NI
        p, lg = op.key.args
        r = I.deref_all(args[1])
        a = I.read(r)
        if not isinstance(a, (Arr, Lst, Cat)):
            return NI
        n = pow2(lg)
        if alen(a) is not n and not equal(alen(a), n)[0]:
            return NI
        v = fresh_ix(n)
        e = aget(a, N(v))
        if not isinstance(e, Poly) or not rng(e, p):
            return NI
        f = ntt_row(kind, p, lg, a)
        if f is None:
            return NI
        w = fresh_ix(n)
        I.write(r, Arr(n, w, f(N(w))))
        return UNIT
    return c


SPECS["ntt::NttOperator::new"].contract = c_ntt_new
SPECS["ntt::NttOperator::forward n=8"].contract = c_ntt("nttf")
SPECS["ntt::NttOperator::backward n=8"].contract = c_ntt("nttb")


# ------------------------------------------------------------------ ring operations
def key_op(tr, m, rhs="&rq::Poly", slf="rq::Poly"):
    return "<%s as std::ops::%s<%s>>::%s" % (slf, tr, rhs, m)


def ringop(tr, f):
    m = {"Add": "add", "Sub": "sub", "Mul": "mul"}[tr]

    @spec(key_op(tr + "Assign", m + "_assign"), "P05")
    def s(I):
        a, b = sympoly(I, "a", "Ntt", mut=True), sympoly(I, "b", "Ntt")
        want = PolyIs(I, ctx_ob(I, QB, LV), "Ntt", RowsIs(QB, LV, lambda i, j: mod(f(pc("a", QB, i, j), pc("b", QB, i, j)), q(QB, i))))
        l2 = sym("lv2", 0, nq(QB) - 1)
        cs = [Case([a, b], None, outs=[("result", a, want)]),
              Case([sympoly(I, "a", "Ntt", mut=True), sympoly(I, "b", "Ntt", l=l2)], diverges=True, label="operands of different levels", pre=[bnot(eq(LV, l2))]),
              Case([sympoly(I, "a", "Ntt", mut=True), sympoly(I, "b", "PowerBasis")], diverges=True, label="right operand in power basis"),
              Case([sympoly(I, "a", "PowerBasis", mut=True), sympoly(I, "b", "Ntt")], diverges=True, label="left operand in power basis")]
        if tr == "Mul":
            cs.append(Case([sympoly(I, "a", "PowerBasis", mut=True), sympoly(I, "b", "PowerBasis")], diverges=True, label="both in power basis"))
        return cs

    @spec(key_op(tr, m, slf="&rq::Poly"), "P05")
    def s2(I):
        a, b = sympoly(I, "a", "Ntt"), sympoly(I, "b", "Ntt")
        want = PolyIs(I, ctx_ob(I, QB, LV), "Ntt", RowsIs(QB, LV, lambda i, j: mod(f(pc("a", QB, i, j), pc("b", QB, i, j)), q(QB, i))))
        return [Case([a, b], want, outs=[("left operand", a, RPoly(I, "a", "Ntt"))])]


def RPoly(I, name, rep, B=QB, l=LV):
    return PolyIs(I, ctx_ob(I, B, l), rep, RowsIs(B, l, lambda i, j: pc(name, B, i, j)))


ringop("Add", lambda a, b: a + b)
ringop("Sub", lambda a, b: a - b)
ringop("Mul", lambda a, b: a * b)


@spec("<&rq::Poly as std::ops::Neg>::neg", "P05")
def s_pneg(I):
    cs = []
    for r in ("Ntt", "PowerBasis"):
        want = PolyIs(I, ctx_ob(I, QB, LV), r, RowsIs(QB, LV, lambda i, j: mod(-pc("a", QB, i, j), q(QB, i))))
        cs.append(Case([sympoly(I, "a", r)], want, label=r))
    return cs


BIGN = sym("Bn", 0)


@spec(key_op("MulAssign", "mul_assign", "&num_bigint::BigUint"), "P05")
def s_mulbig(I):
    a = sympoly(I, "a", "Ntt", mut=True)
    want = PolyIs(I, ctx_ob(I, QB, LV), "Ntt", RowsIs(QB, LV, lambda i, j: mod(pc("a", QB, i, j) * BIGN, q(QB, i))))
    return [Case([a, Ref(I.new_cell(BIGN))], None, outs=[("result", a, want)]),
            Case([sympoly(I, "a", "PowerBasis", mut=True), Ref(I.new_cell(BIGN))], diverges=True, label="power basis")]


@spec(key_op("Mul", "mul", "&num_bigint::BigUint", "&rq::Poly"), "P05")
def s_mulbig2(I):
    a = sympoly(I, "a", "Ntt")
    want = PolyIs(I, ctx_ob(I, QB, LV), "Ntt", RowsIs(QB, LV, lambda i, j: mod(pc("a", QB, i, j) * BIGN, q(QB, i))))
    return [Case([a, Ref(I.new_cell(BIGN))], want)]


@spec("rq::Poly::zero", "P05")
def s_zero(I):
    return [Case([ctxref(I), mkrep(I, r)], PolyIs(I, ctx_ob(I, QB, LV), r, RowsIs(QB, LV, lambda i, j: ZERO)), label=r) for r in ("PowerBasis", "Ntt")]


@spec("rq::Poly::inverse", "P05")
def s_inverse(I):
    return Case([sympoly(I, "a", "Ntt")], PolyIs(I, ctx_ob(I, QB, LV), "Ntt", RowsIs(QB, LV, lambda i, j: inv(pc("a", QB, i, j), q(QB, i)))))


def from_vec(nm, lo, hi):
    @spec("rq::Poly::" + nm, "P05")
    def s(I):
        n = sym("len", 0, NN)
        ra, _, a = symvec(I, "v_" + nm, lo, hi, n)
        rb, _, _b = symvec(I, "w_" + nm, lo, hi, NN + sym("k", 1, 1000))
        want = PolyIs(I, ctx_ob(I, QB, LV), "PowerBasis", RowsIs(QB, LV, lambda i, j: ite(ge0(n - 1 - j), mod(a(j), q(QB, i)), ZERO)))
        return [Case([ctxref(I), ra], want),
                Case([ctxref(I), rb], diverges=True, label="more values than the degree")]


from_vec("try_from_vec_u64", 0, U64 - 1)
from_vec("try_from_vec_i64", -(1 << 63), (1 << 63) - 1)
from_vec("try_from_bigint", 0, (1 << 300) - 1)


@spec("rq::Poly::change_representation", "P06")
def s_chrep(I):
    a = sympoly(I, "a", "PowerBasis", mut=True)
    b = sympoly(I, "a", "Ntt", mut=True)

    def tr(kind):
        def f(i, j):
            w = fresh_ix(NN)
            return ntt_row(kind, q(QB, i), LG, Arr(NN, w, pc("a", QB, i, N(w))))(j)
        return f
    C = ctx_ob(I, QB, LV)
    cs = [Case([a, mkrep(I, "Ntt")], None, outs=[("result", a, PolyIs(I, C, "Ntt", RowsIs(QB, LV, tr("nttf"))))], label="power basis to NTT"),
          Case([b, mkrep(I, "PowerBasis")], None, outs=[("result", b, PolyIs(I, C, "PowerBasis", RowsIs(QB, LV, tr("nttb"))))], label="NTT to power basis")]
    for r in ("PowerBasis", "Ntt"):
        c = sympoly(I, "a", r, mut=True)
        cs.append(Case([c, mkrep(I, r)], None, outs=[("result", c, RPoly(I, "a", r))], label="%s kept" % r))
    return cs


@spec("rq::Poly::coefficients", "P05")
def s_coefs(I):
    return Case([sympoly(I, "a", "Ntt")], RowsIs(QB, LV, lambda i, j: pc("a", QB, i, j)))


# ------------------------------------------------------------------ substitution X -> X^e
EXPN = sym("exponent", 0, (1 << 40))
ODD = sym("oh", 0, (1 << 40))


def sub_fields(I, e):
    """field graph of Substitution::new(ctx, e)"""
    return sub_run(I, body_of(I, "rq::Substitution::new"), [ctxref(I), N(e)])


@spec("rq::Substitution::new", "P07")
def s_subnew(I):
    e = 2 * ODD + 1
    er = mod(e, 2 * NN)

    def chk(g):
        g = I.expand(g)
        if not isinstance(g, Agg):
            return [("fields", None)]
        res = []
        for k, x in enumerate(g.f):
            if isinstance(x, Ref):
                x = I.rd(x)
            if isinstance(x, Poly):
                res.append(("exponent reduced modulo 2n", eq(x, er)))
            elif isinstance(x, (Arr, Lst, Cat)):
                v = fresh_ix(NN)
                res.append(("table length", eq(alen(x), NN)))
                res.append(("table entry i is bitrev((e-1)/2 + i e mod n)", eq(aget(x, N(v)), brv(mod(fdiv(er - 1, N(2)) + N(v) * er, NN), LG)),
                            [ge0(N(v)), ge0(NN - 1 - N(v))]))
        return res
    return [Case([ctxref(I), e], Pred(chk)),
            Case([ctxref(I), 2 * ODD], diverges=True, label="even exponent")]


HH = sym("hh", 0, NN - 1)
EE = 2 * HH + 1
POWT = {}


def subst_coef(a, B, i, x, e, n):
    """coefficient x of a(X^e) in Z_q[X]/(X^n+1), e odd: the j with j e = x (mod n), negated when floor(j e / n) is odd"""
    j = mod(x * inv(e, n), n)
    s = mod(fdiv(j * e, n), N(2))
    return ite(eq(s, ONE), mod(-a(i, j), q(B, i)), a(i, j))


@spec("rq::Poly::substitute", "P07")
def s_substitute(I):
    S = Ref(I.new_cell(sub_fields(I, EE)))
    C = ctx_ob(I, QB, LV)
    a = lambda i, j: pc("a", QB, i, j)
    h = fdiv(EE - 1, N(2))
    w1 = PolyIs(I, C, "PowerBasis", RowsIs(QB, LV, lambda i, x: subst_coef(a, QB, i, x, EE, NN)))
    # value at the root power 2 brv(x)+1 becomes the value at e(2 brv(x)+1)
    w2 = PolyIs(I, C, "Ntt", RowsIs(QB, LV, lambda i, x: a(i, brv(mod(h + brv(x, LG) * EE, NN), LG))))
    r = sympoly(I, "a", "PowerBasis")
    return [Case([r, S], w1, label="coefficient form", outs=[("operand", r, RPoly(I, "a", "PowerBasis"))]),
            Case([sympoly(I, "a", "Ntt"), S], w2, label="transform form")]


# ------------------------------------------------------------------ modulus switching
LVN = sym("lvn", 0, nq(QB) - 2)      # a level that has a next one


def switch_coef(a, B, l, i, j):
    """round(x / q_last) mod q_i from residues: (a_i - (u - d)) q_last^-1, u = (a_last + d) mod q_last, d = q_last div 2"""
    last = nq(B) - l - 1
    ql, qi = q(B, last), q(B, i)
    d = fdiv(ql, N(2))
    u = mod(a(last, j) + d, ql)
    return mod((a(i, j) - u + d) * inv(mod(ql, qi), qi), qi)


@spec("rq::Poly::mod_switch_down_next", "P10")
def s_msdn(I):
    r = sympoly(I, "a", "PowerBasis", l=LVN, mut=True)
    a = lambda i, j: pc("a", QB, i, j)
    want = PolyIs(I, ctx_ob(I, QB, LVN + 1), "PowerBasis", RowsIs(QB, LVN + 1, lambda i, j: switch_coef(a, QB, LVN, i, j)))
    pre = [ge0(nq(QB) - 2)]
    return [Case([r], None, outs=[("result", r, want)], pre=pre),
            Case([sympoly(I, "a", "Ntt", l=LVN, mut=True)], diverges=True, label="transform form", pre=pre),
            Case([sympoly(I, "a", "PowerBasis", l=nq(QB) - 1, mut=True)], diverges=True, label="last level")]


LV2 = sym("lvt", 0, nq(QB) - 1)


@spec("rq::RqContext::switch_iterations", "P10")
def s_swit(I):
    def some(k):
        def chk(g):
            g = I.expand(g)
            if not isinstance(g, En):
                return [("option", None)]
            return [("found", eq(g.d, ONE)), ("number of steps", eq(I.expand(g.pl[1][0]), k) if isinstance(I.expand(g.pl[1][0]), Poly) else None)]
        return Pred(chk)

    def none(g):
        g = I.expand(g)
        return [("nothing", eq(g.d, ZERO))] if isinstance(g, En) else [("option", None)]
    cs = []
    for k in (0, 1, 2, 3):
        l = sym("lk%d" % k, 0, nq(QB) - 1 - k)
        cs.append(Case([ctxref(I, QB, l), ctxref(I, QB, l + k)], some(N(k)), label="%d levels down" % k, pre=[ge0(nq(QB) - 1 - k)]))
    up = sym("lu", 1, nq(QB) - 1)
    return cs
