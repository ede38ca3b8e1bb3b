"""Ring contexts as symbolic objects.

A base is a chain of moduli q(B,0) .. q(B,nq-1) over the ring degree n = 2^lgn(D);
cx(B,l) is the context that has dropped its last l moduli.  The field graphs of
RqContext / RnsContext / NttOperator objects are those of their constructors, so
the analysis follows the code, not the field names.
"""
from spec import *
import spec_mod
from spec_mod import *
import spec_ntt
from spec_ntt import ntt_new, sub_run, root
import random

DEG = {}


def lgn(D):
    if isinstance(D, int):
        return N(D)
    return N(atom("lgn", D))


BOUND_HOOK["lgn"] = lambda a: ([N(3)], [N(17)])


def base(name, D="D"):
    return atom("base", name, D)


def basedeg(B):
    """log2 of the degree"""
    if B.op == "eb":
        return basedeg(B.args[0])
    return lgn(B.args[1]) if B.op == "base" else B.args[3]


def nq(B):
    if B.op == "vb":
        return B.args[0]
    if B.op == "base" and isinstance(B.args[0], tuple):
        return N(B.args[0][1])
    return N(atom("nq", B))


MAXQ = 64
BOUND_HOOK["nq"] = lambda a: ([ONE], [N(MAXQ)])


def q(B, i):
    i = N(i)
    if B.op == "vb":
        return subst(B.args[1], {atom("bv", B.args[2]): i})
    return N(atom("q", B, i))


BOUND_HOOK["q"] = lambda a: ([2 * pow2(basedeg(a.args[0])) + 1], [N((1 << 62) - 1)])
REBUILD["q"] = lambda b, i: q(interp._rb_key(b), i)
REBUILD["nq"] = lambda b: nq(interp._rb_key(b))


def vecbase(n, f, lg):
    """base of an arbitrary vector of moduli"""
    n = N(n)
    v = fresh_ix(n)
    e = f(N(v))
    sa = e.single_atom() if isinstance(e, Poly) else None
    if sa is not None and sa.op == "q" and sa.args[1] is N(v):
        B = sa.args[0]
        lv = nq(B) - n
        if basedeg(B) is lg and prove_ge0(lv) and prove_ge0(n - 1):
            return B, lv
    if n is ONE and sa is not None and sa.op == "q" and sa.args[1] is ZERO and basedeg(sa.args[0]) is lg:
        return sa.args[0], nq(sa.args[0]) - 1
    c = n.const()
    if c is not None and 1 < c <= 8:
        # a short list, entry by entry
        es = [resimp(f(N(k))).single_atom() for k in range(int(c))]
        if all(a is not None and a.op == "q" and a.args[1].const() == k and a.args[0] is es[0].args[0] for k, a in enumerate(es)):
            B = es[0].args[0]
            if basedeg(B) is lg and prove_ge0(nq(B) - n):
                return B, nq(B) - n
    lvl = T._maxlvl(e) + 1
    b = atom("bv", lvl)
    if b not in RANGE:
        RANGE[b] = ([ZERO], [])
    return atom("vb", n, subst(e, {v: N(b)}), lvl, lg), ZERO


REBUILD["vb"] = lambda n, e, lvl, lg: N(atom("vb", n, e, lvl, lg))


def cx(B, l):
    return atom("cx", B, N(l))


REBUILD["cx"] = lambda b, l: N(cx(interp._rb_key(b), l))


def rnsx(B, l):
    return atom("rnsx", B, N(l))


REBUILD["rnsx"] = lambda b, l: N(rnsx(interp._rb_key(b), l))


def nop(p, lg):
    return atom("nop", N(p), N(lg))


REBUILD["nop"] = lambda p, lg: N(nop(p, lg))


def canon(op, key, arg):
    if op == "oeq":
        a, b = key, arg
        if a.op == b.op and a.op in ("cx", "rnsx") and a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if a.op == b.op == "cx" and a.args[0].op == "base" and b.args[0].op == "base" and ("pt" in (a.args[0].args[0], b.args[0].args[0])):
            return FALSE
    return None


if canon not in interp.CANON:
    interp.CANON.append(canon)


def adt_ty(I, path):
    """type index of a non-generic struct"""
    for i, t in enumerate(I.P.types):
        if t["k"] == "adt" and t["path"] == path:
            return i
    raise Unmodelled("no type %s" % path)


def ctx_ob(I, B, l):
    return Ob(cx(B, l), adt_ty(I, "rq::RqContext"))


def qvec(I, B, n):
    v = fresh_ix(n)
    return Arr(n, v, q(B, N(v)))


_t = {}


def body_of(I, key):
    b = I.P.bodies.get(key)
    if b is None:
        raise Unmodelled("%s not found" % key)
    return b


BASE0 = base("#0", "#D0")
L0 = sym("L0", 0, nq(BASE0) - 1)
NQ0 = nq(BASE0) - L0


def tmpl(I, key, f):
    k = (id(I.P), key)
    if k not in _t:
        oldc = I.cells
        I.cells = dict(I.cells)
        st = list(F.stack)
        F.stack[:] = []
        nc = I.nocontract
        I.nocontract = frozenset()
        try:
            _t[k] = f()
        except (Unmodelled, Diverge) as e:
            _t[k] = Top("constructor %s: %s" % (key, str(e) or "diverges"))
        finally:
            I.nocontract = nc
            I.cells = oldc
            F.stack[:] = st
    return _t[k]


def q0vec():
    v = fresh_ix(NQ0)
    return Arr(NQ0, v, q(BASE0, N(v)))


def inst(x, B, l):
    return vsubst(x, {L0.single_atom(): N(l), BASE0: N(B), lgn("#D0").single_atom(): basedeg(B)})


def rns_fields(I, B, l):
    t = tmpl(I, "rns::RnsContext::new", lambda: sub_run(I, body_of(I, "rns::RnsContext::new"), [Ref(I.new_cell(q0vec()))]))
    return inst(t, B, l) if isinstance(t, Agg) else t


def rq_fields(I, B, l):
    def go():
        b = body_of(I, "rq::RqContext::new")
        bd = I.mkval(atom("arg", "bitdec"), b["locals"][3][0])
        return sub_run(I, b, [q0vec(), pow2(lgn("#D0")), bd])
    t = tmpl(I, "rq::RqContext::new", go)
    if not isinstance(t, Agg):
        return t
    r = inst(t, B, l)
    # the recursive constructor call, seen from level l
    return r


def expand_ctx(I, x):
    k = x.key
    if k.op == "cx":
        r = rq_fields(I, *k.args)
        return r if isinstance(r, Agg) else None
    if k.op == "rnsx":
        r = rns_fields(I, *k.args)
        return r if isinstance(r, Agg) else None
    if k.op == "nop":
        key = "ntt::NttOperator::new"
        t = tmpl(I, key, lambda: sub_run(I, body_of(I, key), [Ref(I.new_cell(mod_agg(I, PSYM))), pow2(lgn("#D0"))],
                                         [ge0(PSYM - 2 * pow2(lgn("#D0")) - 1)]))
        if isinstance(t, Agg):
            return vsubst(t, {PSYM.single_atom(): k.args[0], lgn("#D0").single_atom(): k.args[1]})
    return None


spec_mod.EXPANDERS.insert(0, expand_ctx)


# ------------------------------------------------------------------ constructor contracts
def vec_parts(I, v):
    v = I.rd(v) if isinstance(v, Ref) else v
    if not isinstance(v, (Arr, Lst, Cat)):
        return None
    n = alen(v)
    return n, lambda i: aget(v, i)


def log2n(n):
    if T._is_pow2(n):
        return ilog2(n)
    return None


def c_rq_new(I, args, cal, ty):
    vp, lg = vec_parts(I, args[0]), log2n(num(I, args[1]))
    if vp is None or lg is None:
        return NI
    n, f = vp
    if not prove_ge0(n - 1):
        return NI
    B, l = vecbase(n, f, lg)
    return ctx_ob(I, B, l)


def c_rns_new(I, args, cal, ty):
    vp = vec_parts(I, args[0])
    if vp is None:
        return NI
    n, f = vp
    v = fresh_ix(n)
    e = f(N(v))
    sa = e.single_atom() if isinstance(e, Poly) else None
    if sa is None or sa.op != "q":
        return NI
    B, l = vecbase(n, f, basedeg(sa.args[0]))
    if B.op == "vb":
        return NI
    return Ob(rnsx(B, l), adt_ty(I, "rns::RnsContext"))


def c_ntt_new(I, args, cal, ty):
    p, lg = modp(I, args[0]), log2n(num(I, args[1]))
    if p is None or lg is None or not prove_ge0(lg - 3) or not prove_ge0(p - 2 * pow2(lg) - 1):
        return NI
    return Ob(nop(p, lg), adt_ty(I, "ntt::NttOperator"))


def chain_key(env, B, l, sc):
    """a ring is determined by its degree and its moduli"""
    n = env.val(nq(B) - N(l), sc)
    if not 0 <= n <= MAXQ + 8:
        raise ev.Undef("level")
    return ("chain", env.val(N(basedeg(B)), sc), tuple(env.val(q(B, N(k)), sc) for k in range(int(n))))


def ring_key(*pairs):
    def f(env, a, sc):
        out = []
        for i, y in enumerate(a.args):
            if i in pairs:
                out.append(chain_key(env, y, a.args[i + 1], sc))
            elif i - 1 not in pairs:
                out.append(env.key(y, sc))
        return (a.op,) + tuple(out)
    return f


for _o in ("cx", "rnsx"):
    ev.KEYS[_o] = ring_key(0)
for _o in ("rqs", "rnss"):
    ev.KEYS[_o] = ring_key(0, 2)


def sampler(a, k, env):
    """contexts of tiny size: distinct NTT-friendly primes"""
    if a.op == "lgn":
        return 3
    if a.op == "nq":
        if a.args[0].op == "base" and a.args[0].args[0] == "W":
            # long chains: the high words of the wide sums come into play
            return random.Random(ev._h((env.seed, k))).choice((1, 2, 3, 20, 40, 64))
        return random.Random(ev._h((env.seed, k))).choice((1, 2, 2, 3, 3, 4))
    if a.op == "q":
        B, i = k[1], k[2]
        tab = env.aux.setdefault(("q", B), [])
        r = random.Random(ev._h((env.seed, B)))
        if a.args[0].op == "base" and a.args[0].args[0] == "R" and 0 <= i < 4 and (ev._h((env.seed, "common")) >> i) & 1:
            # chains of moduli may share some of them
            return env.atom(q(base("W", a.args[0].args[1]), i).single_atom(), {})
        used = env.aux.setdefault("allq", set())
        big = r.random() < 0.5
        while len(tab) <= i:
            # chains of known length draw from the largest primes, the ones the extension is generated from
            pool = LONGP[:12] if big and isinstance(B[1], tuple) else LONGP if B[1] == "W" and (i > 3 or big) else BIGP if big else SMALLP
            c = r.choice([x for x in pool if x not in used])
            used.add(c)
            tab.append(c)
        return tab[i] if 0 <= i else None
    return None


SMALLP = [17, 97, 113, 193, 241, 257, 337, 353, 401, 433, 449, 577, 593, 641, 673, 769, 881, 929, 977, 1009, 1153, 1201, 1217, 1249, 1297]


def _bigprimes():
    out = []
    for b in (61, 60, 50, 40, 30):
        x = (1 << (b + 1)) - 15
        x -= (x - 1) % 16
        c = 0
        while c < 6:
            if spec_ntt.is_prime(x):
                out.append(x)
                c += 1
            x -= 16
    return out


def _longprimes():
    out = []
    x = (1 << 62) - 15
    while len(out) < 100:
        if spec_ntt.is_prime(x):
            out.append(x)
        x -= 16
    return out


BIGP = _bigprimes()
LONGP = _longprimes()
ev.SAMPLERS.insert(0, sampler)
