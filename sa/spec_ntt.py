"""L1: number-theoretic transform."""
from spec import *
import functools
import spec_mod
from spec_mod import *

NTTY = "ntt::NttOperator"
_ntmpl = {}


def root(p, n):
    """a primitive 2n-th root of unity modulo p: root^n = -1 (mod p)"""
    return N(atom("root", N(p), N(n)))


BOUND_HOOK["root"] = lambda a: ([ONE], [a.args[0] - 1])


def ev_root(env, a, sc):
    p, n = env.val(a.args[0], sc), env.val(a.args[1], sc)
    if (p - 1) % (2 * n):
        raise ev.Undef("no root")
    for g in range(2, 200):
        w = pow(g, (p - 1) // (2 * n), p)
        if pow(w, n, p) == p - 1:
            return w
    raise ev.Undef("no root")


ev.EVALS["root"] = ev_root


def is_prime(n):
    return _prime(int(n))


@functools.lru_cache(maxsize=None)
def _prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _p2(env, b, sc):
    x = env.val(b.args[1], sc)
    return x > 0 and x & (x - 1) == 0


ev.BEVALS["ispow2"] = _p2
ev.BEVALS["probably_prime"] = lambda env, b, sc: is_prime(env.val(b.args[1], sc))


def c_primitive_root(I, args, cal, ty):
    n, p = num(I, args[0]), modp(I, args[1])
    if p is None:
        return NI
    return root(p, n)


def ntt_new(I, p, n):
    """field graph of NttOperator::new(p, n) for a supported pair"""
    body = I.P.bodies.get("ntt::NttOperator::new")
    if body is None:
        raise Unmodelled("NttOperator::new not found")
    return sub_run(I, body, [Ref(I.new_cell(mod_agg(I, p))), N(n)], [ge0(p - 2 * N(n) - 1)])


def sub_run(I, body, args, pre=()):
    old = (I.obl, I.notes, I.panics, list(F.stack))
    I.obl, I.notes, I.panics = [], [], []
    try:
        for f in pre:
            push_fact(f)
        return I.run_body(body, args)
    finally:
        I.obl, I.notes, I.panics = old[0], old[1], old[2]
        F.stack[:] = old[3]


def c_supports(I, args, cal, ty):
    return NI


@spec("ntt::reduce_4p", "P02", "P03", contract=lambda I, a, c, t: (lambda x, p: mod(x, p) if p is not None and rng(x, 4 * p) else NI)(num(I, a[0]), modp(I, a[1])))
def s_r4(I):
    y = sym("y4", 0, 4 * PSYM - 1)
    return Case([y, mself(I)], mod(y, PSYM))


@spec("ntt::is_primitive_root", "P03")
def s_ipr(I):
    v = sym("a", 0, PSYM - 1)
    h = sym("h", 1, 1 << 40)
    n = 2 * h
    return Case([v, n, mself(I)], band(eq(mod(pw(v, n), PSYM), ONE), bnot(eq(mod(pw(v, h), PSYM), ONE))), pre=[ge0(PSYM - 1 - n)])





@spec("ntt::primitive_root", "P03", contract=c_primitive_root, total=False)
def s_pr(I):
    n = pow2(sym("L", 3, 20))
    return Case([n, mself(I)], Pred(lambda g: [("is a root of x^n = -1", band(eq(mod(pw(g, 2 * n), PSYM), ONE), bnot(eq(mod(pw(g, n), PSYM), ONE))))]),
                pre=[ge0(PSYM - 2 * n - 1)])


# ------------------------------------------------------------------ butterflies
def op_fields(I, p, n):
    return Ref(I.new_cell(ntt_new(I, p, n)))


def shoup_of(w, p):
    return fdiv(w * U64, p)


@spec("ntt::NttOperator::butterfly", "P02", "P03")
def s_bf(I):
    w = sym("w", 0, PSYM - 1)
    x, y = sym("x4", 0, 4 * PSYM - 1), sym("y4", 0, 4 * PSYM - 1)
    rx, ry = Ref(I.new_cell(x), (), True), Ref(I.new_cell(y), (), True)
    return Case([op_fields(I, PSYM, 8), rx, ry, w, shoup_of(w, PSYM)], None,
                outs=[("x", rx, Lz(x + w * y, PSYM, 4)), ("y", ry, Lz(x - w * y, PSYM, 4))], pre=[ge0(PSYM - 17)])


@spec("ntt::NttOperator::butterfly_inv", "P02", "P03")
def s_bfi(I):
    w = sym("w", 0, PSYM - 1)
    x, y = sym("x2", 0, 2 * PSYM - 1), sym("y2", 0, 2 * PSYM - 1)
    rx, ry = Ref(I.new_cell(x), (), True), Ref(I.new_cell(y), (), True)
    return Case([op_fields(I, PSYM, 8), rx, ry, w, shoup_of(w, PSYM)], None,
                outs=[("x", rx, Lz(x + y, PSYM, 2)), ("y", ry, Lz(w * (x - y), PSYM, 2))], pre=[ge0(PSYM - 17)])


# ------------------------------------------------------------------ tables
def prime(p):
    return bsym("probably_prime", N(p), ZERO)


@spec("ntt::supports_ntt", "P03")
def s_supp(I):
    L = sym("L", 3, 20)
    n = pow2(L)
    q = sym("q", 0, U64 - 1)
    return [Case([q, n], band(eq(mod(q, 2 * n), ONE), prime(q))),
            Case([q, sym("n_small", 0, 7)], FALSE, label="size below 8"),
            Case([q, N(12)], FALSE, label="size 12"),
            Case([q, N(3 * 512)], FALSE, label="size 1536")]


@spec("ntt::NttOperator::new", "P03", total=False)
def s_nnew(I):
    L = sym("L", 3, 20)
    n = pow2(L)
    return [Case([mself(I), n], Pred(lambda g: tables(I, g, L, n)), pre=[ge0(PSYM - 2 * n - 1), eq(mod(PSYM, 2 * n), ONE)], label="supported size"),
            Case([mself(I), sym("n_small", 0, 7)], diverges=True, label="size below 8"),
            Case([mself(I), n], diverges=True, label="modulus without 2n-th roots", pre=[bnot(eq(mod(PSYM, 2 * n), ONE))])]


def shapes(n, L):
    """the twiddle sequences of a negacyclic transform over a power-of-two length"""
    w = root(PSYM, n)
    wi = inv(w, PSYM)
    fs = {"w^brv(i)": lambda i: mod(pw(w, brv(i, L)), PSYM), "w^-brv(i)": lambda i: mod(pw(wi, brv(i, L)), PSYM),
          "w^(brv(i)+1)": lambda i: mod(pw(w, brv(i, L) + 1), PSYM), "w^-(brv(i)+1)": lambda i: mod(pw(wi, brv(i, L) + 1), PSYM),
          "w^i": lambda i: mod(pw(w, i), PSYM), "w^-i": lambda i: mod(pw(wi, i), PSYM)}
    for k in list(fs):
        fs["shoup " + k] = (lambda f: lambda i: shoup_of(f(i), PSYM))(fs[k])
    return fs


def tables(I, g, L, n):
    """every table follows, at every degree, the law it follows at degree 8"""
    res = []
    g = I.expand(g)
    if not isinstance(g, Agg):
        return [("tables", None)]
    La = L.single_atom()
    nt = 0
    for k, x in enumerate(g.f):
        if isinstance(x, Ref):
            x = I.rd(x)
        if not isinstance(x, (Arr, Lst, Cat)):
            continue
        lab = "table %s" % I.fieldname(g.ty, k)
        x8 = vsubst(x, {La: N(3)})
        law = None
        for nm, f in shapes(N(8), N(3)).items():
            if all(isinstance(aget(x8, N(i)), Poly) and same_at8(aget(x8, N(i)), f(N(i))) for i in range(8)):
                law = nm
                break
        if law is None:
            res.append((lab + ": unknown law", None))
            continue
        nt += 1
        res.append(("%s has one entry per coefficient" % lab, ge0(alen(x) - n)))
        v = fresh_ix(n)
        res.append(("%s is %s" % (lab, law), eq(aget(x, N(v)), shapes(n, L)[law](N(v))), [ge0(N(v)), ge0(n - 1 - N(v))]))
    return res


def same_at8(a, b):
    if equal(a, b)[0]:
        return True
    for env, r in ev.sample([ge0(PSYM - 17), eq(mod(PSYM, N(16)), ONE)], range(1, 13), lambda env: env.val(a) == env.val(b), 3):
        if r is not True and not isinstance(r, ev.Undef):
            return False
    return isinstance(a, Poly)


def bitrev(i, bits):
    return int(bin(i)[2:].zfill(bits)[::-1], 2)


def rootred(e, w, winv, n, ninv=None):
    """normal form modulo p: w^n = -1, winv = -w^(n-1), n*ninv = 1"""
    out = {}
    for m, c in e.t.items():
        ex = 0
        rest = []
        for a, k in m:
            if a is w:
                ex += k
            elif a is winv:
                ex -= k
            else:
                rest.append((a, k))
        ex %= 2 * n
        if ex >= n:
            ex -= n
            c = -c
        key = (tuple(rest), ex)
        out[key] = out.get(key, 0) + c
    return {k: v for k, v in out.items() if v}


def concrete(n, fwd):
    bits = n.bit_length() - 1

    def build(I):
        I.maxunroll = max(n, 10)
        op = ntt_new(I, PSYM, n)
        hi = PSYM - 1
        els = [sym("c%d" % j, 0, hi) for j in range(n)]
        ra = Ref(I.new_cell(Lst(els)), (), True)
        w = root(PSYM, n)
        wa = w.single_atom()
        wi = inv(w, PSYM)
        if fwd:
            def want(i):
                e = ZERO
                for j in range(n):
                    e = e + els[j] * pw_(w, ((2 * bitrev(i, bits) + 1) * j))
                return e
        else:
            def want(i):
                e = ZERO
                for j in range(n):
                    e = e + els[j] * pw_(wi, (2 * bitrev(j, bits) + 1) * i)
                return e * inv(N(n), PSYM)
        return Case([Ref(I.new_cell(op)), ra], None, outs=[("coefficients (n=%d)" % n, ra, Pred(lambda g: root_cmp(I, g, want, n, wa, wi.single_atom())))],
                    pre=[ge0(PSYM - 2 * n - 1), eq(mod(PSYM, 2 * n), ONE)], label="n=%d" % n)
    return build


def pw_(b, e):
    r = ONE
    a = b.single_atom()
    return T._mkpoly({((a, e),): 1}) if e else ONE


def root_cmp(I, g, want, n, wa, wia):
    res = []
    for i in range(n):
        got = aget(g, N(i))
        lab = "output %d is the specified linear combination, reduced" % i
        if not isinstance(got, Poly):
            res.append((lab, None))
            continue
        sa = got.single_atom()
        if sa is not None and sa.op == "mod" and sa.args[1] is PSYM:
            d = rootred(strip_mods(sa.args[0]) - want(i), wa, wia, n)
            if not d:
                res.append((lab, TRUE))
                continue
        res.append((lab, eq(got, mod(want(i), PSYM))))
    return res


def strip_mods(e):
    """drop inner reductions modulo p"""
    return strip(e, PSYM)


for _n in (8, 16, 32):
    SPECS["ntt::NttOperator::forward n=%d" % _n] = FnSpec("ntt::NttOperator::forward", ("P03", "P02"), concrete(_n, True))
    SPECS["ntt::NttOperator::backward n=%d" % _n] = FnSpec("ntt::NttOperator::backward", ("P03", "P02"), concrete(_n, False))
