"""L3: the parameter constructors."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *
import spec_rns
from spec_rns import rns_ob, prod_q, garner, crt
import spec_bfv
from spec_bfv import *
import spec_scale
import spec_ntt
import ev
import models
import terms as T

UBS = sym("ub_in", 1)


def gp(n, ub):
    """the prime generate_prime(62, n, ub) returns"""
    return N(atom("gp", N(n), N(ub)))


REBUILD["gp"] = gp
BOUND_HOOK["gp"] = lambda a: ([a.args[0] + 1], [a.args[1] - 1, N((1 << 62) - 1)])


def ev_gp(env, a, sc):
    n, x = env.val(a.args[0], sc), env.val(a.args[1], sc) - 1
    x -= (x - 1) % n
    while not spec_ntt.is_prime(x):
        x -= n
    return x


ev.EVALS["gp"] = ev_gp


def c_genprime(I, args, cal, ty):
    b, m, ub = [I.num(x) for x in args]
    if b.const() != 62:
        return NI
    return models.some(gp(m, ub))


SPECS["utils::generate_prime"] = FnSpec("utils::generate_prime", (), None, contract=c_genprime)


def bits(x):
    return I_bits(x)


def parity(I, got):
    """index of every field of the constructed parameters"""
    return fields_of(I, got, *PF)


PF = ("degree", "plaintext_modulus_u64", "pt_ctx", "ciphertext_moduli", "pt_ntt", "q_ctxs", "e_ctxs", "mul_params", "delta_ts", "q_mod_ts", "scalars",
      "matrix_reps_index_map", "variance")
PAR_L = (1, 2, 3)
BITS_MARGIN = 20      # tensor products of degree <= 2^17 exceed Q^2 by at most 18 bits


def par_ok(I, B, L, t, var):
    """every field of freshly built parameters, level by level"""
    lg = basedeg(B)

    def f(g):
        g = I.expand(I.rd(g) if isinstance(g, Ref) else g)
        fl = {}
        for n in PF:
            x = fields_of(I, g, n) if isinstance(g, Agg) else None
            if x is None:
                return [("field %s" % n, None)]
            fl[n] = x[0]
        out = [("degree", (fl["degree"], pow2(lg))), ("plaintext modulus", (fl["plaintext_modulus_u64"], t)), ("variance", (fl["variance"], var)),
               ("plaintext ring", (fl["pt_ctx"], ctx_ob(I, B, L - 1))),
               ("ciphertext moduli", (fl["ciphertext_moduli"], Rows(N(L), lambda i: q(B, i)))),
               ("plaintext transform", (fl["pt_ntt"], En(getattr(fl["pt_ntt"], "ty", None), ONE, {0: (), 1: (Ob(nop(t, lg), adt_ty(I, "ntt::NttOperator")),)}))),
               ("slot map", (fl["matrix_reps_index_map"], Rows(pow2(lg), lambda i: slot_index(i, lg))))]
        for n in ("q_ctxs", "e_ctxs", "mul_params", "delta_ts", "q_mod_ts", "scalars"):
            if not isinstance(fl[n], (Arr, Lst, Cat)):
                return out + [(n, None)]
            out.append(("number of %s" % n, (alen(fl[n]), N(L))))
            if alen(fl[n]).const() != L:
                return out
        for l in range(L):
            at = lambda n: aget(fl[n], N(l))
            out.append(("ring of level %d" % l, (at("q_ctxs"), ctx_ob(I, B, l))))
            out.append(("modulus product mod plaintext modulus, level %d" % l, (at("q_mod_ts"), mod(prod_q(B, L - l), t))))
            out.append(("scaler of level %d" % l, (at("scalars"), scaler_ob(I, B, l, B, L - 1, t, prod_q(B, L - l)))))
            out.append(("message factor of level %d" % l, (at("delta_ts"), mkpoly(I, ctx_ob(I, B, l), "Ntt", mkrows(B, l, delta_f(B, t))))))
            e = at("e_ctxs")
            e = I.rd(e) if isinstance(e, Ref) else e
            if not (isinstance(e, Ob) and e.key.op == "cx"):
                out.append(("extended ring of level %d" % l, None))
                continue
            E, el = e.key.args
            n = nq(E) - el
            out.append(("extended ring of level %d has the degree" % l, (pow2(basedeg(E)), pow2(lg))))
            nb = sum((I_bits(q(B, k)) for k in range(L - l)), ZERO)
            out.append(("extended ring of level %d is large enough for products" % l, ge0(62 * (n - (L - l)) - nb - BITS_MARGIN)))
            for k in range(L - l):
                out.append(("extended ring of level %d begins with modulus %d" % (l, k), (q(E, N(k)), q(B, k))))
            # refutation only: that the generated primes are new is not proved
            ext = [q(E, N(k)) for k in range(L - l, 2 * (L - l))]
            for k, x in enumerate(ext):
                out.append(("generated modulus %d of level %d supports the transform" % (k, l), eq(mod(x - 1, 2 * pow2(lg)), ZERO)))
                out.append(("generated modulus %d of level %d is none of the others" % (k, l), band(*[bnot(eq(x, y)) for y in ext[:k] + [q(B, N(j)) for j in range(L - l)]])))
            pr = prod_q(B, L - l)
            m = at("mul_params")
            for nm, w in (("from", ctx_ob(I, B, l)), ("to", e), ("up_scaler", scaler_ob(I, B, l, E, el, 1, 1)), ("down_scalar", scaler_ob(I, E, el, B, l, t, pr))):
                x = fields_of(I, m, nm)
                out.append(("multiplication parameters of level %d: %s" % (l, nm), None if x is None else (x[0], w)))
        return out
    return Pred(f)


def I_bits(x):
    """bit length of a positive number"""
    return N(atom("ilog2", x)) + 1


@spec("bfv::BfvParameters::new", "P11")
def s_parnew(I):
    cs = []
    for L in PAR_L:
        B = base(("C", L))
        v = fresh_ix(N(L))
        bd = I.mkval(atom("arg", "bitdec"), body_of(I, "bfv::BfvParameters::new")["locals"][5][0])
        t = sym("t_in", 2 * pow2(basedeg(B)) + 1, (1 << 62) - 1)
        var = sym("var_in", 1, 16)
        cs.append(Case([pow2(basedeg(B)), t, Arr(N(L), v, q(B, N(v))), var, bd], par_ok(I, B, L, t, var), pre=[ge0(q(B, i) - t - 1) for i in range(L)], label="%d moduli" % L))
    return cs
