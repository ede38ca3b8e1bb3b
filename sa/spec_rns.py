"""L2: residue number system: contexts, CRT, scaling."""
from spec import *
import spec_mod
from spec_mod import *
import spec_ctx
from spec_ctx import *
import spec_rq
from spec_rq import QB, LV, NN, LG, pc, symrows, sympoly, RowsIs, PolyIs, RPoly, ctxref, mkpoly, mkrep, parts


def prod_q(B, n):
    v = fresh_ix(n)
    return mk_prod(v, n, q(B, N(v)))


def star(B, n, i):
    return fdiv(prod_q(B, n), q(B, i))


def garner(B, n, i):
    return star(B, n, i) * inv(star(B, n, i), q(B, i))


def crt(B, n, x):
    """the integer in [0, prod q) with residues x(i)"""
    v = fresh_ix(n)
    return mod(mk_sum(v, n, garner(B, n, N(v)) * x(N(v))), prod_q(B, n))


def rns_ob(I, B=QB, l=LV):
    return Ob(rnsx(B, l), adt_ty(I, "rns::RnsContext"))


def rnsref(I, B=QB, l=LV):
    return Ref(I.new_cell(rns_ob(I, B, l)))


@spec("rns::RnsContext::new", "P08", contract=c_rns_new)
def s_rnsnew(I):
    n = nq(QB) - LV
    return Case([Ref(I.new_cell(qvec(I, QB, n)))], ("fields", {
        "moduli_u64": Rows(n, lambda i: q(QB, i)), "product": prod_q(QB, n), "product_dig": prod_q(QB, n),
        "q_star": Rows(n, lambda i: star(QB, n, i)), "q_tilde": Rows(n, lambda i: inv(star(QB, n, i), q(QB, i))),
        "garner": Rows(n, lambda i: garner(QB, n, i))}))


def c_project(I, args, cal, ty):
    r = I.rd(args[0])
    a = I.rd(args[1])
    if not (isinstance(r, Ob) and r.key.op == "rnsx" and isinstance(a, Poly) and prove_ge0(a)):
        return NI
    B, l = r.key.args
    n = nq(B) - l
    v = fresh_ix(n)
    return Arr(n, v, mod(a, q(B, N(v))))


BIGX = sym("Bx", 0)


@spec("rns::RnsContext::project", "P08", contract=c_project)
def s_project(I):
    return Case([rnsref(I), Ref(I.new_cell(BIGX))], Rows(nq(QB) - LV, lambda i: mod(BIGX, q(QB, i))))


def rs(name, B, i):
    return N(atom("rs", name, B, N(i)))


BOUND_HOOK["rs"] = lambda a: ([ZERO], [q(a.args[1], a.args[2]) - 1])


def c_lift(I, args, cal, ty):
    r = I.rd(args[0])
    x = I.rd(args[1])
    if not (isinstance(r, Ob) and r.key.op == "rnsx" and isinstance(x, (Arr, Lst, Cat))):
        return NI
    B, l = r.key.args
    n = nq(B) - l
    if not prove_ge0(alen(x) - n):
        return NI
    v = fresh_ix(n)
    e = aget(x, N(v))
    if not isinstance(e, Poly) or not prove_ge0(e) or not prove_ge0(N(U64 - 1) - e):
        return NI
    return crt(B, n, lambda i: aget(x, i))


@spec("rns::RnsContext::lift", "P08", contract=c_lift)
def s_lift(I):
    n = nq(QB) - LV
    v = fresh_ix(n)
    x = Ref(I.new_cell(Arr(n, v, rs("x", QB, N(v)))))
    return Case([rnsref(I), x], crt(QB, n, lambda i: rs("x", QB, i)))


@spec("rns::RnsContext::modulus", "P08")
def s_rmodulus(I):
    return Case([rnsref(I)], prod_q(QB, nq(QB) - LV))


FV = "rq::<impl std::convert::From<&rq::Poly> for std::vec::Vec<%s>>::from"


@spec(FV % "num_bigint::BigUint", "P08")
def s_tobig(I):
    return Case([sympoly(I, "a", "PowerBasis")], Rows(NN, lambda j: crt(QB, nq(QB) - LV, lambda i: pc("a", QB, i, j))))


@spec(FV % "u64", "P08")
def s_tou64(I):
    return [Case([sympoly(I, "a", "PowerBasis", l=nq(QB) - 1)], Rows(NN, lambda j: pc("a", QB, 0, j))),
            Case([sympoly(I, "a", "PowerBasis", l=LV)], diverges=True, pre=[ge0(nq(QB) - LV - 2)], label="several moduli")]
