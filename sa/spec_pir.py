"""L4: private information retrieval: query encoding, oblivious expansion, folding."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *
import spec_rq
from spec_rq import QB, LV, NN, LG, pc, RowsIs, PolyIs, ctxref, mkpoly, parts, ntt_row
import spec_poly
from spec_poly import pv, nttrows, mkrows
import spec_ntt
from spec_ntt import root, rootred, bitrev, pw_
import spec_rns
from spec_rns import prod_q, garner
import spec_bfv
from spec_bfv import *

EV = "evaluations::"


# ------------------------------------------------------------------ powers of X
@spec(EV + "Evaluation::gen_x_pows", "P21")
def s_xpows(I):
    return Case([NN, ctxref(I)], Rows(LG, lambda k: PolyW(I, lambda i, j: ite(eq(j, NN - pow2(k)), q(QB, i) - 1, ZERO), "PowerBasis")))


# ------------------------------------------------------------------ expansion at a concrete degree
def gko(e):
    return atom("gko", N(e))


def c_galrel(I, args, cal, ty):
    """a Galois key seen as the automorphism it implements (up to key-switching noise)"""
    g = I.rd(args[0])
    if not (isinstance(g, Ob) and g.key.op == "gko"):
        return NI
    e = g.key.args[0]
    c = I.expand(I.rd(args[1]))
    if not isinstance(c, Agg):
        return NI
    f = dict((nm, k) for k, (nm, _) in enumerate(I.P.adts[CT]["variants"][0]["fields"]))
    cts = c.f[f["cts"]]
    if not isinstance(cts, (Lst, Arr, Cat)) or alen(cts).const() != 2:
        return NI
    out = []
    for k in range(2):
        x = pv(I, aget(cts, N(k)))
        if x is None or x.rep != "Ntt" or not x.canonical():
            return NI
        lg = basedeg(x.B)
        n = pow2(lg)
        h = fdiv(e - 1, N(2))
        out.append(mkpoly(I, x.ob, "Ntt", mkrows(x.B, x.l, (lambda x: lambda i, j: x.f(i, brv(mod(h + brv(j, lg) * e, n), lg)))(x))))
    nf = list(c.f)
    nf[f["cts"]] = Lst(out)
    return Agg(c.ty, nf)


SPECS["bfv::GaliosKey::relinearize"].contract = c_galrel


def expand_ntt(e, n, p, w):
    """replace transforms of concrete size by their sums over powers of the root"""
    lg = n.bit_length() - 1
    for _ in range(8):
        mp = {}
        for a in sorted(e.atoms(), key=lambda a: a.id):
            if a.op == "nttf" and a.args[0] is p and a.args[4].const() is not None:
                t = 2 * bitrev(a.args[4].const(), lg) + 1
                b = atom("bv", a.args[3])
                s = ZERO
                for k in range(n):
                    s = s + subst(a.args[2], {b: N(k)}) * pw_(N(w), (t * k) % (2 * n))
                mp[a] = s
        if not mp:
            return e
        r = ZERO
        for m, c in e.t.items():
            t = N(c)
            for a, k in m:
                t = t * (mp.get(a, N(a)) ** k)
            r = r + t
        e = strip(r, p)
    return e


def unpack_case(n):
    lg = n.bit_length() - 1
    B = base("Q%d" % n, lg)
    K = atom("par", "P%d" % n, B)

    def build(I):
        I.maxunroll = max(n, 10)
        L = sym("lv_%d" % n, 0, nq(B) - 1)
        pob = params_ob(I, K)

        def poly(nm):
            i, j = fresh_ix(nq(B) - L), fresh_ix(N(n))
            return mkpoly(I, ctx_ob(I, B, L), "Ntt", Arr(nq(B) - L, i, Arr(N(n), j, pc(nm, B, N(i), N(j)))))
        ct = struct(I, CT, params=pob, level=L, cts=Lst([poly("c0"), poly("c1")]))
        ins = [(N(n // 2 ** i + 1), Ob(gko(n // 2 ** i + 1), adt_ty(I, "bfv::GaliosKey")), TRUE, None, None) for i in range(lg)]
        ev_ = struct(I, EV + "Evaluation", gk=MapV(ins))

        def chk(g):
            if not isinstance(g, (Lst, Arr, Cat)):
                return [("list of ciphertexts", None)]
            out = [("one ciphertext per coefficient", (alen(g), N(n)))]
            if alen(g).const() != n:
                return out
            i = fresh_ix(nq(B) - L)
            p = q(B, N(i))
            wp = root(p, n)
            w = wp.single_atom()
            ninv = inv(N(n), prod_q(B, nq(B) - L))
            for k in range(n):
                fs = fields_of(I, aget(g, N(k)), "cts", "level", "params")
                if fs is None or not isinstance(fs[0], (Lst, Arr, Cat)) or alen(fs[0]).const() != 2:
                    out.append(("ciphertext %d" % k, None))
                    continue
                out.append(("level of output %d" % k, (fs[1], L)))
                for c in (0, 1):
                    x = pv(I, aget(fs[0], N(c)))
                    lab = "output %d component %d is coefficient %d of the input, at every point" % (k, c, k)
                    if x is None or x.B is not B:
                        out.append((lab, None))
                        continue
                    if x.rep != "Ntt":
                        out.append((lab, "labelled %s" % x.rep))
                        continue
                    want = ZERO
                    for y in range(n):
                        want = want + pc("c%d" % c, B, N(i), N(y)) * pw_(N(w), (-(2 * bitrev(y, lg) + 1) * k) % (2 * n))
                    want = want * ninv
                    ok = True
                    for pt in range(n):
                        got = x.f(N(i), N(pt))
                        if not isinstance(got, Poly):
                            out.append((lab, None))
                            ok = None
                            break
                        d = rootred(strip(expand_ntt(strip(got, p), n, p, w) - want, p), w, None, n)
                        if d:
                            out.append((lab + " (point %d)" % pt, (got, mod(want, p)), [ge0(N(i)), ge0(nq(B) - L - 1 - N(i))]))
                            ok = False
                            break
                    if ok:
                        out.append((lab, TRUE))
            return out
        return Case([Ref(I.new_cell(ev_)), ct], Pred(chk), label="degree %d" % n, seeds=range(1, 9))
    return build


for _n in (8, 16):
    SPECS[EV + "Evaluation::unpack n=%d" % _n] = FnSpec(EV + "Evaluation::unpack", ("P21",), unpack_case(_n), limit=150)


# ------------------------------------------------------------------ evaluation keys
def is_secret(I, v):
    """v is the client's secret key"""
    fs = fields_of(I, v, "coeffs")
    if fs is None or not isinstance(fs[0], (Lst, Arr, Cat)):
        return False
    j = fresh_ix(alen(fs[0]))
    g = aget(fs[0], N(j))
    if g is skc(N(j)):
        return True
    return isinstance(g, Poly) and same(g, skc(N(j)))


def same(a, b, facts=()):
    with with_facts(list(facts)):
        return equal(a, b)[0]


def subst_exp(I, v):
    """exponent of a substitution value whose point table is the one of that exponent"""
    v = I.expand(v)
    if not isinstance(v, Agg):
        return None
    e = [x for x in v.f if isinstance(x, Poly)]
    t = [x for x in v.f if isinstance(x, (Lst, Arr, Cat))]
    if len(e) != 1 or len(t) != 1:
        return None
    e, t = e[0], t[0]
    lg = I.deg_lg
    n = pow2(lg)
    if not same(alen(t), n):
        return None
    if n.const() is not None:
        w = lambda k: brv(mod(fdiv(e - 1, N(2)) + N(k) * e, n), lg)
        return e if all(aget(t, N(k)) is w(k) for k in range(n.const())) else None
    k = fresh_ix(n)
    g = aget(t, N(k))
    w = brv(mod(fdiv(e - 1, N(2)) + N(k) * e, n), lg)
    if not isinstance(g, Poly) or not same(g, w, [ge0(N(k)), ge0(n - 1 - N(k))]):
        return None
    return e


def c_galnew(I, args, cal, ty):
    if "galnew" not in getattr(I, "opaque", ()):
        return NI
    e = subst_exp(I, I.rd(args[1]))
    l = args[2]
    if e is None or not isinstance(l, Poly) or not is_secret(I, I.rd(args[0])):
        return NI
    return Ob(atom("gknew", e, l), ty)


def c_rgswp(I, args, cal, ty):
    if "rgswp" not in getattr(I, "opaque", ()) or not is_secret(I, I.rd(args[0])):
        return NI
    x = pv(I, I.rd(args[1]))
    if x is None or x.rep != "Ntt" or not x.canonical():
        return NI
    I.rgswp = x
    return Ob(atom("rgswenc", x.B, N(x.l)), ty)


for _o in ("gknew", "rgswenc"):
    REBUILD[_o] = lambda *a, o=_o: N(atom(o, *a))
SPECS["bfv::GaliosKey::new"].contract = c_galnew
SPECS["rgsw::RgswCt::encrypt_poly"].contract = c_rgswp


def build_case(n):
    lg = LG if n is None else N(n.bit_length() - 1)
    B = QB if n is None else base("Q%d" % n, lg.const())
    K = PK if n is None else atom("par", "P%d" % n, B)
    nn = pow2(lg)

    def case(I):
        I.opaque = ("galnew", "rgswp")
        I.deg_lg = lg
        if n:
            I.maxunroll = max(n, 10)
        v = fresh_ix(nn)
        sk = Ref(I.new_cell(struct(I, "bfv::SecretKey", params=params_ob(I, K), coeffs=Arr(nn, v, skc(N(v))))))
        s = nttrows(lambda i, j: mod(skc(j), q(B, i)), B, ZERO, "nttf")

        def chk(v):
            fs = fields_of(I, v, "gk", "sk_rgsw")
            if fs is None:
                return [("fields", None)]
            m, r = fs
            out = []
            if not isinstance(m, MapV) or m.base is not None:
                out.append(("Galois keys", None))
            else:
                ents = [(e, f, lab) for e, f, lab in entries(m)]
                for (key, val), f, lab in ents:
                    key = I.rd(key) if isinstance(key, Ref) else key
                    val = I.rd(val) if isinstance(val, Ref) else val
                    ok = isinstance(val, Ob) and val.key.op == "gknew"
                    out.append((lab + " is stored under its own exponent", (key, val.key.args[0]) if ok else None, f))
                    out.append((lab + " is for the top level", (val.key.args[1], ZERO) if ok else None, f))
                for k in range(n.bit_length() - 1) if n else ():
                    out.append(("key for exponent %d present" % (n // 2 ** k + 1), bor(*[band(eq(e[0], N(n // 2 ** k + 1)), *f) for e, f, _ in ents]) if all(isinstance(e[0], Poly) for e, _, _ in ents) else None))
            ok = isinstance(r, Ob) and r.key.op == "rgswenc"
            x = I.rgswp if ok else None
            i, j = fresh_ix(nq(B)), fresh_ix(nn)
            out.append(("selector key level", (N(x.l), ZERO) if ok else None))
            out.append(("selector key encrypts the secret key", (x.f(N(i), N(j)), s(N(i), N(j))) if ok else None, [ge0(N(i)), ge0(nq(B) - N(x.l) - 1 - N(i)), ge0(N(j)), ge0(nn - 1 - N(j))] if ok else []))
            return out

        def entries(m):
            for z, (key, val, gd, ix, cnt) in enumerate(m.ins):
                f = [] if gd is TRUE else [gd]
                if ix is not None:
                    f += [ge0(N(ix)), ge0(N(cnt) - 1 - N(ix))]
                yield (key, val), f, "Galois key %d" % z
        return Case([sk, Ref(I.new_cell(params_ob(I, K)))], Pred(chk), pre=[ge0(nq(B) - 2)], label="any degree" if n is None else "degree %d" % n)
    return case


for _n in (8, 16, 32):
    SPECS[EV + "Evaluation::build n=%d" % _n] = FnSpec(EV + "Evaluation::build", ("P21",), build_case(_n))


# ------------------------------------------------------------------ client: query encoding
def client_v(I, fd, dm, path="Client", **kw):
    return struct(I, EV + path, first_dim=fd, dim=dm, **kw)


FD = sym("fdim", 1, 1 << 16)
DM = sym("sdim", 2, 1 << 10)
ROWS = sym("dbrows", 1, 1 << 40)


@spec(EV + "Client::encode", "P20")
def s_encode(I):
    cs = []
    for K in (1, 2, 3, 4):
        qs = [sym("qd%d_%d" % (K, k), 0, (DM if k else FD) - 1) for k in range(K)]
        size = eq(fdiv(fdiv(ROWS, FD), DM ** (K - 1)), ONE)
        args = lambda rows, qs: [Ref(I.new_cell(client_v(I, FD, DM))), Lst(qs), rows, pref(I), secret(I)]

        def want(x, K=K, qs=qs):
            r = ZERO
            for k in range(K - 1, 0, -1):
                o = FD + (k - 1) * DM
                r = ite(eq(x, o + qs[k]), ONE, ZERO) if k == K - 1 else ite(ge0(o + DM - 1 - x), ite(eq(x, o + qs[k]), ONE, ZERO), r)
            return ite(ge0(FD - 1 - x), ite(eq(x, qs[0]), ONE, ZERO), r)
        cs.append(Case(args(FD * DM ** (K - 1), qs), Rows(FD + (K - 1) * DM, want), label="%d dimensions" % K))
        for k in range(K):
            bad = list(qs)
            bad[k] = (DM if k else FD) + sym("over", 0, 1 << 10)
            cs.append(Case(args(FD * DM ** (K - 1), bad), diverges=True, label="%d dimensions, index %d out of range" % (K, k)))
        cs.append(Case(args(ROWS, qs), diverges=True, pre=[bnot(size)], label="%d dimensions, database of another size" % K))
    return cs


# ------------------------------------------------------------------ server
def uc(c, x, y, i, j):
    """point j, residue i of component c of the y-th ciphertext expanded from the x-th query ciphertext"""
    return N(atom("uc", c, QB, N(x), N(y), N(i), N(j)))


BOUND_HOOK["uc"] = lambda a: ([ZERO], [q(a.args[1], a.args[4]) - 1])


def c_unpack(I, args, cal, ty):
    if "unpack" not in getattr(I, "opaque", ()):
        return NI
    fs = fields_of(I, args[1], "cts", "level", "params")
    if fs is None or not isinstance(fs[0], (Lst, Arr, Cat)) or alen(fs[0]).const() != 2:
        return NI
    xs = []
    for c in (0, 1):
        p = pv(I, aget(fs[0], N(c)))
        if p is None or p.rep != "Ntt" or p.B is not QB:
            return NI
        i, j = fresh_ix(NQ), fresh_ix(NN)
        a = p.f(N(i), N(j))
        a = a.single_atom() if isinstance(a, Poly) else None
        if a is None or a.op != "kc" or a.args[0] != "Q" or a.args[1] != c or a.args[4] is not N(i) or a.args[5] is not N(j):
            return NI
        xs.append(a.args[3])
        l = p.l
    if xs[0] is not xs[1]:
        return NI
    y = fresh_ix(NN)

    def comp(c):
        i, j = fresh_ix(NQ - l), fresh_ix(NN)
        return mkpoly(I, ctx_ob(I, QB, l), "Ntt", Arr(NQ - l, i, Arr(NN, j, uc(c, xs[0], N(y), N(i), N(j)))))
    return Arr(NN, y, struct(I, CT, params=fs[2], level=fs[1], cts=Lst([comp(0), comp(1)])))


for _k in SPECS:
    if _k.startswith(EV + "Evaluation::unpack"):
        SPECS[_k].contract = c_unpack


def dbv(i, r, j):
    return N(atom("dbv", QB, N(r), N(i), N(j)))


BOUND_HOOK["dbv"] = lambda a: ([ZERO], [q(a.args[0], a.args[2]) - 1])


def ext_f(k0, k1, c0, c1, c):
    a = switch_f(inv_f(c1, ZERO), k0, c, ZERO)
    b = switch_f(inv_f(c0, ZERO), k1, c, ZERO)
    return lambda i, j: mq(a(i, j) + b(i, j), i)


def decode_case(I, fd, dm, K):
    nsel = dm * (K - 1)
    rows = fd * dm ** (K - 1)
    I.opaque = ("unpack",)
    I.maxunroll = 16
    x = fresh_ix(NQ + 1)

    def qcomp(c):
        i, j = fresh_ix(NQ), fresh_ix(NN)
        return mkpoly(I, ctx_ob(I, QB, ZERO), "Ntt", Arr(NQ, i, Arr(NN, j, kc("Q", c, N(x), N(i), N(j)))))

    def queries(n):
        return Arr(n, x, struct(I, CT, params=params_ob(I), level=ZERO, cts=Lst([qcomp(0), qcomp(1)])))

    def dbp(r):
        i, j = fresh_ix(NQ), fresh_ix(NN)
        return mkpoly(I, ctx_ob(I, QB, ZERO), "Ntt", Arr(NQ, i, Arr(NN, j, dbv(N(i), r, N(j)))))
    srv = client_v(I, N(fd), N(dm), "Server", db=Lst([I.rd(plain(I, ZERO, name="m%d" % r)) for r in range(rows)]), db_scaled=Lst([dbp(r) for r in range(rows)]))
    ek = struct(I, EV + "Evaluation", sk_rgsw=rgswv(I, "S0", "S1", ZERO), gk=MapV([]))
    args = lambda n=NQ + 1: [Ref(I.new_cell(srv)), queries(n), Ref(I.new_cell(ek)), pref(I)]

    # specified answer
    def sel(y):
        """selector y: rows for the message (as is) and for message times secret (after the external product)"""
        k1 = lambda c, k, i, j: uc(c, k + 1, y, i, j)

        def k0(c, k, i, j):
            c0 = lambda i, j: uc(0, k + 1, y, i, j)
            c1 = lambda i, j: uc(1, k + 1, y, i, j)
            return ext_f(key_f("S0"), key_f("S1"), c0, c1, c)(i, j)
        return k0, k1
    cur = []
    for b in range(rows // fd):
        cur.append([(lambda b, c: lambda i, j: mq(sum((uc(c, 0, y, i, j) * dbv(i, b * fd + y, j) for y in range(fd)), ZERO), i))(b, c) for c in (0, 1)])
    for d in range(K - 1):
        nxt = []
        for b in range(len(cur) // dm):
            def row(b, c, cur, d):
                def f(i, j):
                    t = ZERO
                    for y in range(dm):
                        k0, k1 = sel(d * dm + y)
                        ct = cur[b * dm + y]
                        t = t + ext_f(k0, k1, ct[0], ct[1], c)(i, j)
                    return mq(t, i)
                return f
            nxt.append([row(b, c, cur, d) for c in (0, 1)])
        cur = nxt
        d0 = d
    want = Items([CtIs(I, cur[0], ZERO)])
    lab = "dimensions %s" % "x".join([str(fd)] + [str(dm)] * (K - 1))
    return [Case(args(), want, pre=[ge0(NQ - 2)], label=lab)] + [Case(args(NQ), diverges=True, pre=[ge0(NQ - 2)], label=lab + ", a query ciphertext missing")] * (K == 1)


def _dec(fd, dm, K, tier="quick"):
    SPECS[EV + "Server::decode %d,%d,%d" % (fd, dm, K)] = FnSpec(EV + "Server::decode", ("P22",), lambda I: decode_case(I, fd, dm, K), tier=tier, limit=200 if K > 2 else 0)


_dec(2, 2, 1)
_dec(2, 2, 2)
_dec(3, 2, 2)
_dec(2, 3, 2)
_dec(3, 2, 3)


@spec(EV + "Server::no_of_cts", "P22")
def s_ncts(I):
    cs = []
    for K in (1, 2, 3, 4):
        v = fresh_ix(FD * DM ** (K - 1))
        db = Arr(FD * DM ** (K - 1), v, I.rd(plain(I, ZERO)))
        cs.append(Case([Ref(I.new_cell(client_v(I, FD, DM, "Server", db=db)))], FD + (K - 1) * DM, label="%d dimensions" % K))
    return cs


@spec(EV + "Server::new", "P22")
def s_srvnew(I):
    n = sym("dbn", 0, 1 << 30)
    x, v = fresh_ix(n), fresh_ix(NN)
    e = lambda r, j: N(atom("pval", N(r), N(j)))
    pt = struct(I, "bfv::Plaintext", params=params_ob(I), level=ZERO, values=Arr(NN, v, e(N(x), N(v))))
    db = Arr(n, x, pt)
    row = lambda r: nttrows(lambda i, j: mq(e(r, j), i), QB, ZERO, "nttf")
    return Case([FD, DM, Ref(I.new_cell(db)), pref(I)],
                ("fields", {"first_dim": FD, "dim": DM, "db_scaled": Rows(n, lambda r: PolyW(I, lambda i, j: row(r)(i, j), "Ntt", QB, ZERO)),
                            "db": Rows(n, lambda r: ("fields", {"values": Rows(NN, lambda j: e(r, j)), "level": ZERO}))}))
