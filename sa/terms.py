"""Algebraic value domain: hash-consed polynomial normal forms over opaque atoms.

Integers (and ring elements) are polynomials with rational coefficients over
atoms; every atom carries symbolic range information, so that the order
relation needed for truncations, floors and remainders can be decided by
interval propagation (no solver).
"""
from fractions import Fraction
import time
import itertools

_atoms = {}
_polys = {}
_bools = {}
_cnt = itertools.count(1)
_fresh = itertools.count(1)


def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


class Atom:
    __slots__ = ("op", "args", "id", "_rank", "_fv", "ring")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


class Poly:
    __slots__ = ("t", "id", "_atoms", "_fv")

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0) if self.is_const() else None

    def atoms(self):
        if self._atoms is None:
            self._atoms = frozenset(a for m in self.t for a, _ in m)
        return self._atoms

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def single_mono(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return m, c
        return None

    def __add__(self, o):
        return padd(self, N(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(N(o), -1))

    def __rsub__(self, o):
        return padd(N(o), pscale(self, -1))

    def __neg__(self):
        return pscale(self, -1)

    def __mul__(self, o):
        return pmul(self, N(o))

    __rmul__ = __mul__

    def __pow__(self, k):
        r = ONE
        for _ in range(k):
            r = r * self
        return r


def _mkpoly(d):
    d = {m: fr(c) for m, c in d.items() if c != 0}
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p.id = next(_cnt)
        p._atoms = None
        p._fv = None
        _polys[key] = p
    return p


def N(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mkpoly({((x, 1),): 1})
    if isinstance(x, bool):
        return _mkpoly({(): int(x)})
    if isinstance(x, (int, Fraction)):
        return _mkpoly({(): x})
    raise TypeError("not a number: %r" % (x,))


class TimeUp(Exception):
    """the analysis of one function exceeded its time limit"""


class _DL:
    t = None


HINTS = {}       # phi atom -> upper bounds a contract would have needed


def atom(op, *args):
    key = (op, args)
    a = _atoms.get(key)
    if _DL.t is not None and time.time() > _DL.t:
        raise TimeUp()
    if a is None:
        a = Atom()
        a.op = op
        a.args = args
        a.id = next(_cnt)
        a._rank = None
        a._fv = None
        a.ring = False
        _atoms[key] = a
    return a


def A(op, *args):
    return N(atom(op, *args))


ZERO = N(0)
ONE = N(1)
TWO = N(2)

# ---------------------------------------------------------------- ranges
RANGE = {}  # atom -> ([lo polys], [hi polys])
POSINT = set()


def set_range(a, lo=None, hi=None):
    if isinstance(a, Poly):
        a = a.single_atom()
    l, h = RANGE.get(a, ([], []))
    if lo is not None:
        l = l + [N(lo)]
    if hi is not None:
        h = h + [N(hi)]
    RANGE[a] = (l, h)
    a._rank = None
    bump()


def fresh(name, lo=None, hi=None):
    a = atom("var", name, next(_fresh))
    if lo is not None or hi is not None:
        RANGE[a] = ([N(lo)] if lo is not None else [], [N(hi)] if hi is not None else [])
    return N(a)


def sym(name, lo=None, hi=None):
    a = atom("sym", name)
    if (lo is not None or hi is not None) and a not in RANGE:
        set_range(a, lo, hi)
    return N(a)


# ---------------------------------------------------------------- poly ops
def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        v = d.get(m, 0) + c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return _mkpoly(d)


def pscale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return _mkpoly({m: c * k for m, c in a.t.items()})


def _mono_mul(m1, m2):
    """returns (mono, coeff)"""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    p2 = None
    pws = {}
    for a, e in itertools.chain(m1, m2):
        if a.op == "pow2":
            x = a.args[0] if e == 1 else pscale(a.args[0], e)
            p2 = x if p2 is None else padd(p2, x)
        elif a.op == "pw":
            x = a.args[1] if e == 1 else pscale(a.args[1], e)
            b = a.args[0]
            pws[b] = x if b not in pws else padd(pws[b], x)
        else:
            d[a] = d.get(a, 0) + e
    coeff = 1
    for b, x in pws.items():
        ba = b.single_atom()
        if ba is not None and ba in d:
            x = x + d.pop(ba)
        if x.is_const() and ba is not None:
            d[ba] = d.get(ba, 0) + int(x.const())
        elif x is ZERO:
            pass
        else:
            d[atom("pw", b, x)] = 1
    if p2 is not None:
        c = p2.t.get((), 0)
        if c:
            coeff = Fraction(2) ** int(c)
            p2 = p2 - c
        if p2.t:
            d[atom("pow2", p2)] = 1
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id)), coeff


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, k = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * k
    return _mkpoly(d)


def mono_poly(m, c=1):
    return _mkpoly({m: c})


def pow2(e):
    e = N(e)
    c = e.t.get((), 0)
    r = e - c
    if not isinstance(c, int):
        return N(atom("pow2", e))
    if not r.t:
        return N(Fraction(2) ** c)
    return _mkpoly({((atom("pow2", r), 1),): Fraction(2) ** c})


def pw(b, e):
    b, e = N(b), N(e)
    if e.is_const() and isinstance(e.const(), int) and 0 <= e.const() <= 6:
        return b ** e.const()
    if b.const() == 1:
        return ONE
    if b.const() == 2:
        return pow2(e)
    return N(atom("pw", b, e))


def pinv(p):
    """Laurent inverse of a single-monomial polynomial (bounds only)."""
    sm = p.single_mono()
    if sm is None:
        return None
    m, c = sm
    m2 = []
    for a, e in m:
        if a.op == "pow2":
            m2.append((atom("pow2", -a.args[0]), 1))
        else:
            m2.append((a, -e))
    return _mkpoly({tuple(sorted(m2, key=lambda x: x[0].id)): Fraction(1) / c})


# ---------------------------------------------------------------- booleans
class Bl:
    __slots__ = ("op", "args", "id", "_fv")

    def __repr__(self):
        return show_bool(self)


def _mkb(op, *args):
    key = (op, args)
    b = _bools.get(key)
    if b is None:
        b = Bl()
        b.op = op
        b.args = args
        b.id = next(_cnt)
        b._fv = None
        _bools[key] = b
    return b


TRUE = _mkb("true")
FALSE = _mkb("false")


class Facts:
    def __init__(self):
        self.stack = []
        self.ver = 0

    def key(self):
        return tuple(f.id for f in self.stack)


F = Facts()
_bump = [0]


def bump():
    _bump[0] += 1
    _lbmemo.clear()
    _decmemo.clear()


_lbmemo = {}
_decmemo = {}


class assume:
    """context manager: add facts"""

    def __init__(self, *fs):
        self.fs = [f for f in fs if f is not TRUE]

    def __enter__(self):
        self.n = len(F.stack)
        for f in self.fs:
            push_fact(f)
        return self

    def __exit__(self, *a):
        del F.stack[self.n:]


def push_fact(f):
    if f.op == "and":
        for x in f.args[0]:
            push_fact(x)
    elif f is TRUE:
        pass
    else:
        if f.op == "ge0" and len(f.args[0].t) <= 4 and all(len(m) <= 1 for m in f.args[0].t) and f not in F.stack and prove_ge0(-f.args[0]):
            F.stack.append(f)
            f = eq0(f.args[0])
            if f in (TRUE, FALSE):
                f = _mkb("eq0", F.stack[-1].args[0])
        F.stack.append(f)


class with_facts:
    def __init__(self, fs):
        self.new = list(fs)

    def __enter__(self):
        self.old = F.stack
        F.stack = []
        for f in self.new:
            push_fact(f)

    def __exit__(self, *a):
        F.stack = self.old


def ge0(p):
    p = N(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    # gcd normalisation for integer coefficients
    from math import gcd
    g = 0
    ok = True
    for m, c in p.t.items():
        if not isinstance(c, int):
            ok = False
            break
        if m:
            g = gcd(g, c)
    if ok and g > 1 and all(all(e > 0 for _, e in m) and all(a.op != "pow2" for a, _ in m) for m in p.t):
        d = {}
        for m, c in p.t.items():
            d[m] = c // g
        p = _mkpoly(d)
    d = decide_ge0(p)
    if d is True:
        return TRUE
    if d is False:
        return FALSE
    # c0 + k * ite(b, x, y) with constants x, y of different verdicts is b or its negation
    if len(p.t) <= 2:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == "ite":
            b, x, y = ms[0][0][0].args
            x, y = N(x).const(), N(y).const()
            if x is not None and y is not None:
                k, c0 = p.t[ms[0]], p.t.get((), 0)
                x, y = c0 + k * x >= 0, c0 + k * y >= 0
                return TRUE if x and y else b if x else bnot(b) if y else FALSE
    return _mkb("ge0", p)


def lt(a, b):
    return ge0(N(b) - N(a) - 1)


def le(a, b):
    return ge0(N(b) - N(a))


def eq0(p):
    p = N(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # canonical sign
    k = max(p.t.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0]))
    if k[1] < 0:
        p = -p
    d = decide_eq0(p)
    if d is True:
        return TRUE
    if d is False:
        return FALSE
    # a whole-term ite of constants
    sa = _lin_single(p)
    if sa and sa[0].op == "ite":
        a, k, c = sa
        cnd, x, y = a.args
        x2, y2 = eq0(x * k + c), eq0(y * k + c)
        if x2 in (TRUE, FALSE) and y2 in (TRUE, FALSE):
            return bite(cnd, x2, y2)
    return _mkb("eq0", p)


def _lin_single(p):
    """p == k*a + c for one atom a"""
    ms = [m for m in p.t if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        return ms[0][0][0], p.t[ms[0]], p.t.get((), 0)
    return None


def eq(a, b):
    return eq0(N(a) - N(b))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        return ge0(-b.args[0] - 1)
    if b.op == "and":
        return bor(*[bnot(x) for x in b.args[0]])
    if b.op == "or":
        return band(*[bnot(x) for x in b.args[0]])
    return _mkb("not", b)


def band(*bs):
    s = set()
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == "and":
            s |= set(b.args[0])
        else:
            s.add(b)
    for x in s:
        if bnot(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mkb("and", frozenset(s))


def bor(*bs):
    s = set()
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == "or":
            s |= set(b.args[0])
        else:
            s.add(b)
    for x in s:
        if bnot(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mkb("or", frozenset(s))


def bite(c, a, b):
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bsym(*key):
    return _mkb("b", *key)


def decide(b):
    """True / False / None under the current facts"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    key = (b.id, F.key(), _bump[0])
    if key in _decmemo:
        return _decmemo[key]
    r = _decide(b)
    _decmemo[key] = r
    return r


def _decide(b):
    if b in F.stack:
        return True
    if b.op == "ge0":
        return decide_ge0(b.args[0])
    if b.op == "eq0":
        return decide_eq0(b.args[0])
    if b.op == "not":
        d = decide(b.args[0])
        return None if d is None else not d
    if b.op == "and":
        r = True
        for x in b.args[0]:
            d = decide(x)
            if d is False:
                return False
            if d is None:
                r = None
        return r
    if b.op == "or":
        r = False
        for x in b.args[0]:
            d = decide(x)
            if d is True:
                return True
            if d is None:
                r = None
        return r
    if bnot(b) in F.stack:
        return False
    # disjunctive facts
    for f in F.stack:
        if f.op == "or" and bnot(b) in f.args[0]:
            pass
    return None


def decide_ge0(p):
    key = ("g", p.id, F.key(), _bump[0])
    if key in _decmemo:
        return _decmemo[key]
    _decmemo[key] = None
    r = None
    if prove_ge0(p):
        r = True
    elif prove_ge0(-p - 1):
        r = False
    _decmemo[key] = r
    return r


def decide_eq0(p):
    for f in F.stack:
        if f.op == "eq0":
            if f.args[0] is p or f.args[0] is -p:
                return True
        if f.op == "not" and f.args[0].op == "eq0" and (f.args[0].args[0] is p or f.args[0].args[0] is -p):
            return False
    if prove_ge0(p - 1) or prove_ge0(-p - 1):
        return False
    if prove_ge0(p) and prove_ge0(-p):
        return True
    # substitute equalities  x = const
    sub = {}
    for f in F.stack:
        if f.op == "eq0":
            l = _lin_single(f.args[0])
            if l and l[0] in p.atoms():
                sub[l[0]] = N(Fraction(-l[2]) / l[1])
    if sub:
        q = psub_atoms(p, sub)
        if q is not p:
            c = q.const()
            if c is not None:
                return c == 0
    return None


def psub_atoms(p, sub):
    """shallow substitution of top level atoms (used by the prover)"""
    r = ZERO
    ch = False
    for m, c in p.t.items():
        q = N(c)
        for a, e in m:
            if a in sub:
                ch = True
                if e < 0:
                    i = pinv(sub[a])
                    if i is None:
                        return p
                    q = q * (i ** (-e))
                else:
                    q = q * (sub[a] ** e)
            else:
                q = q * mono_poly(((a, e),))
        r = r + q
    return r if ch else p


def prove_ge0(p, depth=0):
    c = p.const()
    if c is not None:
        return c >= 0
    if _pg(p):
        return True
    # +-floor(e / c) + r >= 0 without going through numeric bounds
    if len(p.t) <= 2:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == "fdiv":
            (e, d), k, r = ms[0][0][0].args, p.t[ms[0]], p.t.get((), 0)
            if k in (1, -1) and isinstance(r, int) and depth < 3 and (F.stack or d.const() is None):
                if prove_ge0(e + r * d if k == 1 else d * (r + 1) - 1 - e, depth + 1):
                    return True
    # floor(e / d) - K floor(e / (K d)) is a residue modulo K
    if depth < 3:
        fs = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fdiv"]
        if 2 <= len(fs) <= 6:
            for x, c in fs:
                for y, c2 in fs:
                    if x is y or x.args[0] is not y.args[0] or Fraction(-c2) / c <= 1:
                        continue
                    K = Fraction(-c2) / c
                    if K.denominator == 1 and y.args[1] is x.args[1] * K.numerator:
                        r = p - N(x) * c - N(y) * c2
                        return prove_ge0(r if c > 0 else r + c * (K.numerator - 1), depth + 1)
    # factor a common positive monomial / pow2 scaling
    ms = list(p.t)
    p2s = set()
    for m in ms:
        for a, e in m:
            if a.op == "pow2":
                p2s.add(a)
    if p2s and depth == 0:
        for a in p2s:
            q = p * N(atom("pow2", -a.args[0]))
            if q is not p and _pg(q):
                return True
    return False


_MAXD = 60


# shallow proofs only: normal forms get larger, not wrong (second attempt at
# functions whose graph cannot be simplified in time; used for refutation only)
CHEAP = [False]


def _pg(p):
    l = lb(p)
    if l is not None and l >= 0:
        return True
    if CHEAP[0]:
        return any(f.op == "ge0" and (p - f.args[0]).const() is not None and (p - f.args[0]).const() >= 0 for f in F.stack)
    pa = p.atoms()
    tried = 0
    cand = []
    neq = []
    for f in F.stack:
        if f.op == "ge0":
            cand.append(f.args[0])
        elif f.op == "eq0":
            cand.append(f.args[0])
            cand.append(-f.args[0])
        elif f.op == "not" and f.args[0].op == "eq0":
            # x != 0 and x >= 0  ->  x >= 1
            neq.append(f.args[0].args[0])
    ch = bool(neq)
    while ch:
        ch = False
        for q in list(neq):
            for z in (q, -q):
                l0 = lb(z)
                if (l0 is not None and l0 >= 0) or any((z - c).const() is not None and (z - c).const() >= 0 for c in cand):
                    cand.append(z - 1)
                    neq.remove(q)
                    ch = True
                    break
    for a in pa:
        if a.op == "ilog2" and F.stack:
            x = a.args[0]
            for j in (2, 1):
                d = x - (1 << j)
                l0 = lb(d)
                if (l0 is not None and l0 >= 0) or _pg(d):
                    cand.append(N(a) - j)
                    break
    nxt = []
    for q in cand:
        if not (q.atoms() & pa):
            continue
        ks = set()
        for m, c in q.t.items():
            if m and m in p.t:
                k = Fraction(p.t[m]) / c
                if k > 0:
                    ks.add(k)
        for k in ks:
            r = p - q * k
            l = lb(r)
            if l is not None and l >= 0:
                return True
            nxt.append(r)
    if len(cand) <= 12:
        for r in nxt[:8]:
            ra = r.atoms()
            for q in cand:
                if not (q.atoms() & ra):
                    continue
                for m, c in q.t.items():
                    if m and m in r.t:
                        k = Fraction(r.t[m]) / c
                        if k > 0:
                            l = lb(r - q * k)
                            if l is not None and l >= 0:
                                return True
    return False


def rank(a):
    if a._rank is not None and (a._rank[0] == _bump[0]):
        return a._rank[1]
    a._rank = (_bump[0], 0)
    r = 0
    los, his = bounds(a)
    for p in los + his:
        for x in p.atoms():
            if x is not a:
                r = max(r, rank(x) + 1)
    if a.op == "ite":
        for p in a.args[1:]:
            if isinstance(p, Poly):
                for x in p.atoms():
                    r = max(r, rank(x) + 1)
        r += 1
    a._rank = (_bump[0], r)
    return r


_boundmemo = {}


def bounds(a):
    """symbolic lower and upper bound candidates of an atom"""
    r = RANGE.get(a)
    if r is not None:
        return r
    k = (a, _bump[0])
    if k in _boundmemo:
        return _boundmemo[k]
    _boundmemo[k] = ([], [])
    r = _bounds(a)
    _boundmemo[k] = r
    return r


def _odd_power(e):
    """product of odd constants and powers of odd constants"""
    sm = e.single_mono()
    if sm is None:
        return False
    (m, c), = e.t.items()
    return isinstance(c, int) and c % 2 == 1 and all(a.op == "pw" and k > 0 and a.args[0].const() is not None and int(a.args[0].const()) % 2 == 1 and prove_ge0(a.args[1]) for a, k in m)


def _even(p):
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    return isinstance(c, int) and c % 2 == 0 and c > 0 and all(k > 0 and a.op == "pow2" and prove_ge0(a.args[0]) for a, k in m)


def _bounds(a):
    op = a.op
    if op in ("mod", "lz"):
        p = a.args[1]
        k = a.args[2] if op == "lz" else 1
        los, his = [ZERO], [p * k - 1]
        if op == "mod" and _odd_power(a.args[0]) and _even(p):
            los.append(ONE)
        if op == "mod" and a.args[0].id and prove_ge0(a.args[0]):
            his.append(a.args[0])
        return los, his
    if op == "fdiv":
        e, c = a.args
        ci = pinv(c)
        if ci is None:
            los = [ZERO] if lbnum(e) is not None and lbnum(e) >= 0 else []
            return los, ([e] if los else [])
        los = [(e - c + 1) * ci]
        his = [e * ci]
        if c.const() is not None:
            l, u = lb(e), ub(e)
            if l is not None:
                los.append(N(l // c.const()))
            if u is not None:
                his.append(N(u // c.const()))
        if e.const() is not None and e.const() > 0 and c.const() is None:
            l = lb(c)
            if l is not None and l >= 1:
                his.append(N(e.const() // (-(-l // 1))))
        if prove_ge0(e):
            los.append(ZERO)
        return los, his
    if op == "pow2":
        e = a.args[0]
        los, his = [], []
        l = lb(e)
        if l is not None and l >= -4096:
            los.append(N(Fraction(2) ** int(-((-l) // 1))))
        else:
            los.append(ZERO)
        u = ub(e)
        if u is not None and u < 4096:
            his.append(N(Fraction(2) ** int(u // 1)))
        return los, his
    if op == "ilog2":
        u = ub(a.args[0])
        h = []
        if u is not None and u > 0:
            h = [N(int(u).bit_length() - 1)]
        return [ZERO], h
    if op == "bitlen":
        u = ub(a.args[0])
        return [ZERO], [N(int(u).bit_length())] if u is not None and u >= 0 else []
    if op in ("popcount",):
        h = []
        u = ub(a.args[0])
        if u is not None and u >= 0:
            h = [N(int(u).bit_length())]
        return [ZERO], h
    if op == "and":
        h = [x for x in a.args[0]]
        return [ZERO], h
    if op in ("brv",):
        return [ZERO], [pow2(a.args[1]) - 1]
    if op == "xor":
        us = [ub(x) for x in a.args[0]]
        if all(u is not None and u >= 0 for u in us):
            m = max(us)
            return [ZERO], [N(2 ** int(m).bit_length() - 1)]
        return [], []
    if op == "mino":
        n, body = a.args[0], a.args[1]
        v = atom("bv", a.args[2])
        if v not in RANGE:
            RANGE[v] = ([ZERO], [])
        l = lb(body)
        return ([N(l)] if l is not None else []), ([subst(body, {v: ZERO})] if prove_ge0(n - 1) else [])
    if op == "prod":
        n, body = a.args[0], a.args[1]
        v = atom("bv", a.args[2])
        if v not in RANGE:
            RANGE[v] = ([ZERO], [])
        l = lb(body)
        out = [ZERO] if l is not None and l >= 0 else []
        if l is not None and l >= 1:
            out.append(ONE)
            # a factor is a lower bound of the product
            if prove_ge0(n - 1):
                out.append(subst(body, {v: ZERO}))
        return out, []
    if op == "sum":
        n, body = a.args[0], a.args[1]
        v = atom("bv", a.args[2])
        if v not in RANGE:
            RANGE[v] = ([ZERO], [])
        l, u = lb(body), ub(body)
        los, his = [], []
        if l is not None:
            los.append(n * l)
        if u is not None:
            his.append(n * u)
        return los, his
    if op in ("min",):
        return ([ZERO] if all(prove_ge0(x) for x in a.args[0]) else []), list(a.args[0])
    h = BOUND_HOOK.get(op)
    if h is not None:
        return h(a)
    if op == "inv":
        return [ZERO], [a.args[1] - 1]
    return [], []


def lbnum(p):
    return lb(p)


def ub(p):
    l = lb(-p)
    return None if l is None else -l


_lbdepth = [0]


KNOWN = {}      # primitive poly -> [(lo, hi, facts)]


def _prim(p):
    """p = c0 + k*q with q without constant term and leading coefficient 1"""
    c0 = p.t.get((), 0)
    m = max(x for x in p.t if x)
    k = p.t[m]
    q = _mkpoly({x: fr(Fraction(c) / k) for x, c in p.t.items() if x})
    return c0, k, q


def learn(p, lo, hi):
    """remember a proven numeric interval of p (valid while the present facts hold)"""
    if len(p.t) < 2 and not (len(p.t) == 1 and sum(e for _, e in next(iter(p.t))) > 1):
        return
    if p.const() is not None:
        return
    c0, k, q = _prim(p)
    a = None if lo is None else Fraction(lo - c0) / k
    b = None if hi is None else Fraction(hi - c0) / k
    if k < 0:
        a, b = b, a
    l = KNOWN.setdefault(q, [])
    fs = frozenset(F.stack)
    for (a2, b2, f2) in l:
        if f2 <= fs and (a is None or (a2 is not None and a2 >= a)) and (b is None or (b2 is not None and b2 <= b)):
            return
    l.append((a, b, fs))


def forget(atoms):
    """drop the intervals that may rest on a withdrawn range hypothesis about one of `atoms` (array or leaf atoms)"""
    atoms = set(atoms)

    def rests(a, depth=0):
        if a in atoms or (a.op == "sel" and a.args[0] in atoms):
            return True
        if depth < 3 and a in RANGE:
            return any(rests(y, depth + 1) for b in RANGE[a] for x in b for y in fv(x))
        return False
    for q in list(KNOWN):
        if any(rests(a) for a in fv(q)):
            del KNOWN[q]


def _known_lb(p):
    if not KNOWN or len(p.t) < 1:
        return None
    c0, k, q = _prim(p)
    l = KNOWN.get(q)
    if not l:
        return None
    best = None
    fs = None
    for a, b, f in l:
        v = a if k > 0 else b
        if v is None:
            continue
        if f:
            if fs is None:
                fs = set(F.stack)
            if not f <= fs:
                continue
        v = c0 + k * v
        if best is None or v > best:
            best = v
    return best


def lb(p):
    """numeric lower bound (Fraction) or None"""
    c = p.const()
    if c is not None:
        return c
    r = _lb0(p)
    kb = _known_lb(p)
    if kb is not None and (r is None or kb > r):
        return kb
    return r


def _lb0(p):
    key = (p.id, F.key() if _needs_facts(p) else 0, _bump[0])
    if key in _lbmemo:
        return _lbmemo[key]
    if _lbdepth[0] > _MAXD:
        return None
    _lbmemo[key] = None
    _lbdepth[0] += 1
    try:
        r = _lb(p)
    finally:
        _lbdepth[0] -= 1
    _lbmemo[key] = r
    return r


def _needs_facts(p):
    return bool(F.stack) and any(a.op in ("ite", "fdiv", "mod") for a in p.atoms())


def _lb(p):
    ats = p.atoms()
    a = max(ats, key=lambda x: (rank(x), x.id))
    if a.op == "ite" and a not in RANGE:
        cnd, x, y = a.args
        d = decide(cnd)
        if d is True:
            return lb(psub_atoms(p, {a: x}))
        if d is False:
            return lb(psub_atoms(p, {a: y}))
        if CHEAP[0]:
            l1 = lb(psub_atoms(p, {a: x}))
            l2 = lb(psub_atoms(p, {a: y})) if l1 is not None else None
            return None if l2 is None else min(l1, l2)
        if len(F.stack) < 24:
            with assume(cnd):
                l1 = _plb(psub_atoms(p, {a: x}))
            if l1 is None:
                return None
            with assume(bnot(cnd)):
                l2 = _plb(psub_atoms(p, {a: y}))
            if l2 is None:
                return None
            return min(l1, l2)
        return None
    coef = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for x, k in m:
            if x is a:
                e = k
            else:
                rest.append((x, k))
        coef.setdefault(e, {})[tuple(rest)] = c
    coef = {e: _mkpoly(d) for e, d in coef.items()}
    los, his = bounds(a)
    best = None
    if set(coef) <= {0, 1}:
        c1 = coef[1]
        c0 = coef.get(0, ZERO)
        l = lb(c1)
        if l is not None and l >= 0:
            cands = los
        else:
            u = ub(c1)
            if u is not None and u <= 0:
                cands = his
            else:
                return None
        for b in cands:
            v = lb(c1 * b + c0)
            if v is not None and (best is None or v > best):
                best = v
        return best
    # mixed powers of a non-negative atom
    if not any(lbz(x) for x in los):
        return None
    for lo in los or [None]:
        for hi in his or [None]:
            r = ZERO
            ok = True
            for e, c in coef.items():
                if e == 0:
                    r = r + c
                    continue
                l = lb(c)
                if l is not None and l >= 0:
                    b = lo if e > 0 else hi
                else:
                    u = ub(c)
                    if u is None or u > 0:
                        ok = False
                        break
                    b = hi if e > 0 else lo
                if b is None:
                    ok = False
                    break
                if e < 0:
                    b = pinv(b)
                    if b is None:
                        ok = False
                        break
                r = r + c * (b ** abs(e))
            if ok:
                v = lb(r)
                if v is not None and (best is None or v > best):
                    best = v
    return best


def _plb(p):
    """lower bound, helped by facts: only the sign matters for most callers"""
    l = lb(p)
    if l is not None and l >= 0:
        return l
    if p.const() is None and _pg(p):
        return 0
    return l


def lbz(p):
    l = lb(p)
    return l is not None and l >= 0


# ---------------------------------------------------------------- integrality
def mono_is_int(m, c):
    """c*m is an integer for every valuation"""
    e2 = ZERO
    for a, e in m:
        if e < 0:
            return False
        if a.op == "pow2":
            e2 = e2 + a.args[0]
    c = Fraction(c)
    d = c.denominator
    if d == 1:
        if not e2.t:
            return True
        l = lb(e2)
        if l is None or l < 0:
            # an even coefficient may absorb
            k = 0
            n = abs(c.numerator)
            while n % 2 == 0:
                n //= 2
                k += 1
            return l is not None and l + k >= 0
        return True
    if d & (d - 1):
        return False
    l = lb(e2)
    return l is not None and l >= d.bit_length() - 1


def mono_div(m, c, q):
    """(m,c) / single-monomial q -> (m',c') or None if q's atoms are not in m"""
    qm, qc = q
    d = dict(m)
    p2 = ZERO
    for a, e in list(d.items()):
        if a.op == "pow2":
            p2 = p2 + a.args[0]
            del d[a]
    for a, e in qm:
        if a.op == "pow2":
            p2 = p2 - a.args[0]
            continue
        if d.get(a, 0) < e:
            return None
        d[a] -= e
        if d[a] == 0:
            del d[a]
    if p2.t:
        d[atom("pow2", p2)] = 1
    return tuple(sorted(d.items(), key=lambda x: x[0].id)), Fraction(c) / qc


def _nonneg_pow2_ok(m):
    return True


# ---------------------------------------------------------------- fdiv / mod
def ites_of(p):
    return [a for a in p.atoms() if a.op == "ite"]


def lift1(p, f, maxn=3):
    """apply f under the case split of p's ite atoms (None if too many)"""
    its = ites_of(p)
    if not its or len(its) > maxn or CHEAP[0]:
        return None
    a = max(its, key=lambda x: x.id)
    c, x, y = a.args
    with assume(c):
        r1 = f(psub_atoms(p, {a: x}))
    with assume(bnot(c)):
        r2 = f(psub_atoms(p, {a: y}))
    return ite(c, r1, r2)


def fdiv(e, c):
    """floor(e / c) for c > 0"""
    e, c = N(e), N(c)
    cc = c.const()
    ec = e.const()
    if cc is not None and cc == 1:
        return e
    if cc is not None and ec is not None and cc != 0:
        return N(Fraction(ec) // Fraction(cc))
    if cc == 0:
        return N(atom("fdiv", e, c))
    sm = c.single_mono()
    out = ZERO
    if sm is not None:
        keep = {}
        for m, k in e.t.items():
            q = mono_div(m, k, sm)
            if q is not None and mono_is_int(*q):
                out = out + mono_poly(*q)
            elif q is not None and not q[0] and cc is not None and isinstance(k, int) and isinstance(cc, int):
                out = out + (k // cc)
                if k % cc:
                    keep[m] = k % cc
            else:
                keep[m] = k
        e = _mkpoly(keep)
        if not e.t:
            return out
    # cancel common constant factor
    if cc is not None and isinstance(cc, int) and all(isinstance(k, int) for k in e.t.values()):
        from math import gcd
        g = cc
        for m, k in e.t.items():
            if m:
                g = gcd(g, k)
        if g > 1 and all(all(x > 0 for _, x in m) for m in e.t) and not any(a.op == "pow2" for a in e.atoms()):
            k0 = e.t.get((), 0)
            e2 = _mkpoly({m: (k // g if m else k0 // g) for m, k in e.t.items()})
            return out + fdiv(e2, cc // g)
        # drop the part below a divisor of c that cannot carry
        for g in sorted({gcd(k, cc) for m, k in e.t.items() if m} - {1}, reverse=True):
            low = {m: k for m, k in e.t.items() if k % g}
            if low and len(low) < len(e.t) and all(all(x > 0 for _, x in m) for m in e.t):
                lp = _mkpoly(low)
                if prove_ge0(lp) and prove_ge0(N(g - 1) - lp):
                    return out + fdiv(_mkpoly({m: k // g for m, k in e.t.items() if m not in low}), cc // g)
    # quotient by range
    for k in (0, -1, 1):
        if prove_ge0(e - c * k) and prove_ge0(c * (k + 1) - e - 1):
            return out + k
    sc = c.single_atom()
    if sc is not None and sc.op == "pow2" and sc.args[0].single_atom() is not None \
            and sc.args[0].single_atom().op == "ilog2" and sc.args[0].single_atom().args[0] is e:
        return out + 1
    ea = e.single_atom()
    if ea is not None and ea.op == "brv" and sm is not None and _is_pow2(c):
        w = ea.args[1] - ilog2(c)
        if prove_ge0(w) and prove_ge0(pow2(w) - 1 - ea.args[0]):
            return out + brv(ea.args[0], w)
    # nested floors
    for m, k in e.t.items():
        if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fdiv":
            b, d = m[0][0].args
            if poly_is_int(e) and (d.const() is not None or d.single_mono()) and prove_ge0(d - 1):
                return out + fdiv((e - mono_poly(m)) * d + b, d * c)
    r = lift1(e, lambda x: fdiv(x, c))
    if r is not None:
        return out + r
    return out + N(atom("fdiv", e, c))


def poly_is_int(p):
    return all(mono_is_int(m, c) for m, c in p.t.items())


def strip(e, p):
    """representative of e's residue class modulo p, with inner reductions
    removed (p: single monomial)"""
    for _ in range(12):
        e2 = _strip1(e, p)
        if e2 is e:
            return e
        e = e2
    return e


def _strip1(e, p):
    sm = p.single_mono()
    pc = p.const()
    r = ZERO
    for m, k in e.t.items():
        q = mono_div(m, k, sm)
        if q is not None and mono_is_int(*q) and all(x > 0 for _, x in m):
            continue
        if pc is not None and isinstance(k, int):
            k = k % pc
            if k == 0 and mono_is_int(m, 1):
                continue
        # inverse cancellation
        m = _cancel_inv(m, p)
        pi = _cancel_pinv(m, k, p)
        if pi is not None:
            r = r + pi
            continue
        t = N(k)
        for a, x in m:
            t = t * (_strip_atom(a, p) ** x if x > 0 else mono_poly(((a, x),)))
        r = r + t
    return r


def _cancel_pinv(m, k, p):
    """k * lead(b) * inv(b) * rest  ->  (k/lc) * rest * (1 - inv(b) * tail(b))"""
    d = dict(m)
    for a, x in m:
        if a.op != "inv" or a.args[1] is not p or len(a.args[0].t) < 2:
            continue
        b = a.args[0]
        lm = max((z for z in b.t if z), key=lambda z: tuple((y.id, e) for y, e in z))
        lc = b.t[lm]
        if not isinstance(lc, int) or not isinstance(k, int) or k % lc or any(d.get(y, 0) < e for y, e in lm):
            continue
        d2 = dict(d)
        for y, e in lm:
            d2[y] -= e
        d2[a] -= 1
        rest = _mkpoly({tuple(sorted(((y, e) for y, e in d2.items() if e), key=lambda z: z[0].id)): k // lc})
        return rest * (ONE - N(a) * (b - mono_poly(lm, lc)))
    return None


def _cancel_inv(m, p):
    d = dict(m)
    for a, x in list(d.items()):
        if a.op == "inv" and a.args[1] is p and a in d:
            b = a.args[0].single_atom()
            if b is not None and b in d:
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
            elif b is None and len(a.args[0].t) == 1:
                (bm, bc), = a.args[0].t.items()
                while bc == 1 and d[a] > 0 and all(e > 0 and d.get(y, 0) >= e for y, e in bm):
                    d[a] -= 1
                    for y, e in bm:
                        d[y] -= e
    return tuple(sorted(((a, x) for a, x in d.items() if x), key=lambda z: z[0].id))


def _strip_atom(a, p):
    if a.op in ("mod", "lz") and a.args[1] is p:
        return a.args[0]
    if a.op == "mod" and _divides(p, a.args[1]):
        return a.args[0]
    if a.op == "ite":
        c, x, y = a.args
        x2, y2 = strip(x, p), strip(y, p)
        if x2 is y2:
            return x2
        if x2 is not x or y2 is not y:
            return ite(c, x2, y2)
    if a.op == "sum":
        v, n, body = open_sum(a)
        if v.single_atom() not in fv(p):
            b2 = strip(body, p)
            if b2 is not body:
                return mk_sum(v, n, b2)
    if a.op == "pw":
        b2 = strip(a.args[0], p)
        if b2 is not a.args[0]:
            return pw(b2, a.args[1])
    return N(a)


def _divides(p, q):
    """p | q syntactically"""
    if p is q:
        return True
    sp, sq = p.single_mono(), q.single_mono()
    if sp is None or sq is None:
        return False
    r = mono_div(sq[0], sq[1], sp)
    return r is not None and mono_is_int(*r)


def mod(e, p):
    e, p = N(e), N(p)
    pc, ec = p.const(), e.const()
    if pc is not None and pc == 0:
        return N(atom("mod", e, p))
    if pc is not None and ec is not None:
        return N(Fraction(ec) - Fraction(pc) * (Fraction(ec) // Fraction(pc)))
    if pc == 1:
        return ZERO
    if prove_ge0(e) and prove_ge0(p - e - 1):
        return e
    if pc is not None and isinstance(pc, int) and pc & (pc - 1) == 0 and pc > 2 ** 16:
        r = e - p * fdiv(e, p)
        learn(r, 0, pc - 1)
        return r
    if p.single_mono() is not None:
        e = strip(e, p)
        if e.const() is not None and pc is None and e.const() == 0:
            return ZERO
    if prove_ge0(e) and prove_ge0(p - e - 1):
        return e
    if pc is None and len(p.t) == 1:
        r = _mod_content(e, p)
        if r is not None:
            return r
    if prove_ge0(e - p) and prove_ge0(2 * p - e - 1):
        return e - p
    if prove_ge0(e + p) and prove_ge0(-e - 1):
        return e + p
    return N(atom("mod", e, p))


def _mod_content(e, p):
    """mod(c a + r, c M) = c mod(a, M) + r  for 0 <= r < c"""
    (m, c), = p.t.items()
    if not isinstance(c, int) or c < 2 or any(k < 0 for _, k in m):
        return None
    r = 0
    out = {}
    for mm, k in e.t.items():
        if not isinstance(k, int) or any(x < 0 for _, x in mm):
            return None
        if any(a.op == "pow2" and not prove_ge0(a.args[0]) for a, _ in mm):
            return None
        if not mm:
            r = k % c
            k -= r
        if k % c:
            return None
        if k:
            out[mm] = k // c
    return c * mod(_mkpoly(out), _mkpoly({m: 1})) + r


def lz(e, p, k):
    """an integer in [0, k p) congruent to e (deterministic in e)"""
    e, p = N(e), N(p)
    if p.single_mono() is not None:
        e = strip(e, p)
    return N(atom("lz", e, p, k))


def inv(e, p):
    e, p = N(e), N(p)
    e = strip(e, p) if p.single_mono() is not None else e
    if e is ONE and prove_ge0(p - 2):
        return ONE
    return N(atom("inv", e, p))


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    if isinstance(a, Bl):
        return bite(c, a, b)
    a, b = N(a), N(b)
    if a is b:
        return a
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ge0":
        p = c.args[0]
        lead = max((kv for kv in p.t.items() if kv[0]), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))
        if lead[1] < 0:
            c = _mkb("ge0", -p - 1)
            a, b = b, a
    if c.op == "or" and all(x.op in ("not",) for x in c.args[0]):
        c, a, b = bnot(c), b, a
    if c.op == "eq0":
        l = _lin_eq_var(c.args[0])
        if l is not None:
            v, val = l
            if subst(a, {v: val}) is subst(b, {v: val}):
                return b
    # resolve nested occurrences of the same condition
    a = _assume_in(a, c, True)
    b = _assume_in(b, c, False)
    if a is b:
        return a
    # common additive part with non ite
    return N(atom("ite", c, a, b))


def _assume_in(p, c, pol):
    sub = {}
    for x in p.atoms():
        if x.op == "ite":
            if x.args[0] is c:
                sub[x] = x.args[1] if pol else x.args[2]
    return psub_atoms(p, sub) if sub else p


def _lin_eq_var(p):
    """p = ±v + rest, v a variable not in rest -> (v, value)"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in ("var", "sym", "bv"):
            v = m[0][0]
            rest = p - mono_poly(m, c)
            if v not in fv(rest):
                return v, rest * (-c)
    return None


def b2i(b):
    return ite(b, ONE, ZERO)


# ---------------------------------------------------------------- bits
def _mask_of(p):
    """p = pow2(a) - pow2(b) (as polys) -> (2^a, 2^b) or None"""
    c = p.const()
    if c is not None:
        if isinstance(c, int) and c > 0:
            low = c & -c
            hi = c + low
            if hi & (hi - 1) == 0:
                return N(hi), N(low)
        return None
    if len(p.t) == 2:
        pos = [(m, k) for m, k in p.t.items() if k > 0]
        neg = [(m, k) for m, k in p.t.items() if k < 0]
        if len(pos) == 1 and len(neg) == 1:
            a, b = mono_poly(*pos[0]), mono_poly(neg[0][0], -neg[0][1])
            if _is_pow2(a) and _is_pow2(b):
                return a, b
    if len(p.t) == 1 and _is_pow2(p):
        return p * 2, p
    return None


def _is_pow2(p):
    sm = p.single_mono()
    if sm is None:
        return False
    m, c = sm
    c = Fraction(c)
    if c <= 0:
        return False
    if c.numerator & (c.numerator - 1) or c.denominator & (c.denominator - 1):
        return False
    return all(a.op == "pow2" for a, _ in m)


def two_valued(*ps):
    """a floor atom of ps that can take two adjacent values only -> (atom, k, cond for k+1)"""
    for p in ps:
        for x in sorted(p.atoms(), key=lambda x: x.id):
            if x.op == "fdiv" and x.args[1].const() is not None:
                e, c = x.args
                for k in (-1, 0):
                    if prove_ge0(e - c * k) and prove_ge0(c * (k + 2) - e - 1):
                        return x, k, ge0(e - c * (k + 1))
    return None


def split2(op, a, b, w):
    t = two_valued(a, b)
    if t is None:
        return None
    x, k, cnd = t
    with assume(cnd):
        r1 = op(resimp(a), resimp(b), w)
    with assume(bnot(cnd)):
        r2 = op(resimp(a), resimp(b), w)
    return ite(cnd, r1, r2)


def bitand(a, b, w=None):
    a, b = N(a), N(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return N(int(ca) & int(cb))
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if y.const() == 0:
            return ZERO
        mk = _mask_of(y)
        if mk:
            hi, lo = mk
            return mod(fdiv(x, lo), hi * pinv(lo)) * lo
    for x, y in ((a, b), (b, a)):
        if x.single_atom() is not None and x.single_atom().op == "ite" or (len(ites_of(x)) == 1 and len(x.t) <= 2):
            its = ites_of(x)
            i0 = its[0]
            with assume(i0.args[0]):
                r1 = bitand(psub_atoms(x, {i0: i0.args[1]}), _assume_in(y, i0.args[0], True), w)
            with assume(bnot(i0.args[0])):
                r2 = bitand(psub_atoms(x, {i0: i0.args[2]}), _assume_in(y, i0.args[0], False), w)
            return ite(i0.args[0], r1, r2)
    if prove_ge0(a) and prove_ge0(1 - a) and prove_ge0(b) and prove_ge0(1 - b):
        # both bits
        if prove_ge0(1 - a - b):
            return ZERO
        return a * b
    r = split2(bitand, a, b, w)
    if r is not None:
        return r
    return N(atom("and", frozenset((a, b))))


def bitor(a, b, w=None):
    a, b = N(a), N(b)
    for x, y in ((a, b), (b, a)):
        # x multiple of 2^k, 0 <= y < 2^k
        if x is ZERO:
            return y
        ks = _pow2_factor(x)
        if ks is not None and prove_ge0(y) and prove_ge0(ks - y - 1):
            return x + y
    if prove_ge0(a) and prove_ge0(b) and prove_ge0(1 - a - b):
        return a + b
    its = ites_of(a) or ites_of(b)
    if its and len(ites_of(a)) + len(ites_of(b)) <= 4:
        c = its[0].args[0]
        with assume(c):
            r1 = bitor(_assume_in(a, c, True), _assume_in(b, c, True), w)
        with assume(bnot(c)):
            r2 = bitor(_assume_in(a, c, False), _assume_in(b, c, False), w)
        return ite(c, r1, r2)
    return a + b - bitand(a, b, w)


def _pow2_factor(x):
    """a power of two dividing x (as Poly)"""
    best = None
    for m, c in x.t.items():
        c = Fraction(c)
        n = abs(c.numerator)
        k = (n & -n)
        f = N(Fraction(k, c.denominator))
        for a, e in m:
            if a.op == "pow2":
                f = f * N(a)
        if best is None or best is f:
            best = f
        elif prove_ge0(f - best):
            pass
        elif prove_ge0(best - f):
            best = f
        else:
            return None
    return best


def bitxor(a, b, w=None):
    a, b = N(a), N(b)
    s = set()
    for x in (a, b):
        sa = x.single_atom()
        parts = sa.args[0] if sa is not None and sa.op == "xor" else (x,)
        for q in parts:
            if q in s:
                s.remove(q)
            else:
                s.add(q)
    c = 0
    for q in list(s):
        if q.const() is not None:
            c ^= int(q.const())
            s.remove(q)
    if c:
        s.add(N(c))
    if not s:
        return ZERO
    if len(s) == 1:
        return next(iter(s))
    if len(s) == 2:
        for q in s:
            if w and q.const() == 2 ** w - 1:
                o, = s - {q}
                return q - o
        if all(prove_ge0(q) and prove_ge0(1 - q) for q in s):
            x, y = s
            return x + y - 2 * x * y
    return N(atom("xor", frozenset(s)))


def bitnot(a, w):
    return N(2 ** w - 1) - a


def wrapu(p, w):
    """reduce modulo 2^w unless provably in range"""
    m = 2 ** w
    if prove_ge0(p) and prove_ge0(N(m - 1) - p):
        return p
    its = ites_of(p)
    if 0 < len(its) <= 2:
        r = lift1(p, lambda x: wrapu(x, w))
        if r is not None:
            return r
    if prove_ge0(p + m) and prove_ge0(-p - 1):
        return p + m
    r = p - N(m) * fdiv(p, m)
    learn(r, 0, m - 1)
    return r


def ilog2(x):
    x = N(x)
    c = x.const()
    if c is not None and c >= 1:
        return N(int(c).bit_length() - 1)
    if _is_pow2(x):
        m, k = x.single_mono()
        k = Fraction(k)
        e = (k.numerator.bit_length() - 1) - (k.denominator.bit_length() - 1)
        r = N(e)
        for a, _ in m:
            r = r + a.args[0]
        return r
    return N(atom("ilog2", x))


def bitlen(x):
    """number of bits: 0 for 0, ilog2+1 otherwise"""
    x = N(x)
    c = x.const()
    if c is not None:
        return N(int(c).bit_length())
    if prove_ge0(x - 1):
        return ilog2(x) + 1
    return N(atom("bitlen", x))


def brv(x, k):
    x, k = N(x), N(k)
    if x is ZERO:
        return ZERO
    if x.const() is not None and k.const() is not None and 0 <= x.const() < 2 ** k.const():
        w = int(k.const())
        return N(int(bin(int(x.const()))[2:].zfill(w)[::-1], 2) if w else 0)
    return N(atom("brv", x, k))


def popcount(x):
    x = N(x)
    if x.const() is not None:
        return N(bin(int(x.const())).count("1"))
    return N(atom("popcount", x))


def pmin(a, b):
    a, b = N(a), N(b)
    if prove_ge0(b - a):
        return a
    if prove_ge0(a - b):
        return b
    s = set()
    for x in (a, b):
        sa = x.single_atom()
        if sa is not None and sa.op == "min":
            s |= set(sa.args[0])
        else:
            s.add(x)
    # drop dominated
    for x in list(s):
        for y in list(s):
            if x is not y and x in s and y in s and prove_ge0(y - x):
                s.discard(y)
    if len(s) == 1:
        return next(iter(s))
    return N(atom("min", frozenset(s)))


def pmax(a, b):
    a, b = N(a), N(b)
    if prove_ge0(b - a):
        return b
    if prove_ge0(a - b):
        return a
    return -pmin(-a, -b)


# ---------------------------------------------------------------- sums
def open_sum(a):
    n, body, lvl = a.args
    v = fresh("k", 0, n - 1)
    return v, n, subst(body, {atom("bv", lvl): v})


def _maxlvl(p, memo=None):
    m = 0
    for a in fvb(p):
        if a.op == "bv":
            m = max(m, a.args[0])
    return m


_fvb = {}
_EMPTY = frozenset()


def fvb(p):
    """all atoms (deep), including bound ones"""
    if isinstance(p, (str, int, type(None))):
        return _EMPTY
    if p in _fvb:
        return _fvb[p]
    s = set()
    if isinstance(p, Poly):
        for a in p.atoms():
            s |= fvb(a)
    elif isinstance(p, Bl):
        for x in p.args:
            s |= fvb(x)
    elif isinstance(p, Atom):
        s.add(p)
        for x in p.args:
            s |= fvb(x)
    elif isinstance(p, (tuple, frozenset)):
        for x in p:
            s |= fvb(x)
    s = frozenset(s)
    _fvb[p] = s
    return s


def fv(p):
    return fvb(p)


def mk_sum(v, n, body):
    """sum_{v=0}^{n-1} body"""
    n, body = N(n), N(body)
    va = v.single_atom() if isinstance(v, Poly) else v
    nc = n.const()
    if nc is not None and nc <= 0:
        return ZERO
    if nc is not None and nc <= 4:
        r = ZERO
        for k in range(int(nc)):
            r = r + subst(body, {va: N(k)})
        return r
    out = ZERO
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            (dep if va in fv(a) else ind).append((a, e))
        if not dep:
            out = out + n * mono_poly(m, c)
            continue
        out = out + mono_poly(tuple(ind), c) * _sum1(va, n, mono_poly(tuple(dep)))
    return out


def mk_prod(v, n, body):
    """prod_{v=0}^{n-1} body"""
    n, body = N(n), N(body)
    va = v.single_atom() if isinstance(v, Poly) else v
    nc = n.const()
    if nc is not None and nc <= 4:
        r = ONE
        for k in range(int(nc)):
            r = r * subst(body, {va: N(k)})
        return r
    if va not in fv(body):
        return pw(body, n)
    sm = body.single_mono()
    if sm is not None and len(sm[0]) > 1:
        r = pw(N(sm[1]), n)
        for a, e in sm[0]:
            r = r * mk_prod(v, n, N(a)) ** e
        return r
    lvl = _maxlvl(body) + 1
    b = atom("bv", lvl)
    if b not in RANGE:
        RANGE[b] = ([ZERO], [])
    return N(atom("prod", n, subst(body, {va: N(b)}), lvl))


def mk_min(v, n, body):
    """min of body over v = 0 .. n-1 (n >= 1)"""
    n, body = N(n), N(body)
    va = v.single_atom() if isinstance(v, Poly) else v
    nc = n.const()
    if nc is not None and 1 <= nc <= 4:
        r = subst(body, {va: ZERO})
        for k in range(1, int(nc)):
            r = pmin(r, subst(body, {va: N(k)}))
        return r
    if va not in fv(body):
        return body
    c = body.t.get((), 0)
    lvl = _maxlvl(body) + 1
    b = atom("bv", lvl)
    if b not in RANGE:
        RANGE[b] = ([ZERO], [])
    return N(atom("mino", n, subst(body - c, {va: N(b)}), lvl)) + c


_BINDERS = {"sum": mk_sum, "prod": mk_prod, "mino": mk_min}


def tsize(p):
    return len(str(p))


def _occ(va, x, seen, acc):
    """coefficients and offsets of the linear occurrences of va in x: acc = [shifted, reversed]"""
    if x in seen or va not in fv(x):
        return
    seen.add(x)
    if isinstance(x, Poly):
        c = x.t.get(((va, 1),))
        if c is not None:
            k = x.t.get((), 0)
            if c > 0 and k > 0:
                acc[0] = True
            if c < 0:
                acc[1] = True
        for m in x.t:
            for a, _ in m:
                if a is not va:
                    _occ(va, a, seen, acc)
    elif isinstance(x, (Atom, Bl)):
        for y in x.args:
            if isinstance(y, (Poly, Bl, Atom, tuple, frozenset)):
                _occ(va, y, seen, acc)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            if isinstance(y, (Poly, Bl, Atom, tuple, frozenset)):
                _occ(va, y, seen, acc)


def _sum1(va, n, dep):
    # shift normalisation
    extra = ZERO
    occ = [False, False]
    _occ(va, dep, set(), occ)
    for _ in range(3):
        if not occ[0]:
            break
        d2 = subst(dep, {va: N(va) - 1})
        if len(d2.t) == 1 and _complexity(d2) < _complexity(dep):
            extra = extra - subst(d2, {va: ZERO})
            dep = d2
            n = n + 1
        else:
            break
    if occ[1]:
        d2 = subst(dep, {va: n - 1 - N(va)})
        if len(d2.t) == 1 and _complexity(d2) < _complexity(dep):
            dep = d2
    dep_c = N(1)
    if len(dep.t) != 1:
        return extra + mk_sum(va, n, dep)
    lvl = _maxlvl(dep) + 1
    b = atom("bv", lvl)
    if b not in RANGE:
        RANGE[b] = ([ZERO], [])
    body = subst(dep, {va: N(b)})
    return extra + N(atom("sum", n, body, lvl))


def _complexity(p):
    return tsize(p)


# ---------------------------------------------------------------- substitution
def subst(x, mp):
    if not mp:
        return x
    keys = frozenset(mp)
    return _subst(x, mp, keys, {})


REBUILD = {}


def _subst(x, mp, keys, memo):
    if not (fv(x) & keys):
        return x
    if x in memo:
        return memo[x]
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.t.items():
            t = N(c)
            for a, e in m:
                s = N(_subst(a, mp, keys, memo))
                if e < 0:
                    i = pinv(s)
                    t = t * (i ** (-e) if i is not None else mono_poly(((a, e),)))
                else:
                    t = t * (s ** e)
            r = r + t
    elif isinstance(x, Bl):
        args = [_sarg(y, mp, keys, memo) for y in x.args]
        r = rebuild_bool(x.op, args)
    else:
        if x in mp:
            r = N(mp[x])
        elif x.op in ("sum", "prod", "mino"):
            v, n, body = open_sum(x)
            r = _BINDERS[x.op](v, _subst(n, mp, keys, memo), _subst(body, mp, keys, memo))
        elif x.op == "ite":
            c = _subst(x.args[0], mp, keys, memo)
            r = ite(c, _subst(x.args[1], mp, keys, memo), _subst(x.args[2], mp, keys, memo))
        else:
            args = [_sarg(y, mp, keys, memo) for y in x.args]
            r = rebuild(x, args)
    memo[x] = r
    return r


def _sarg(y, mp, keys, memo):
    if isinstance(y, Atom):
        r = _subst(y, mp, keys, memo)
        if isinstance(r, Poly) and r.single_atom() is not None:
            return r.single_atom()
        return r
    if isinstance(y, (Poly, Bl)):
        return _subst(y, mp, keys, memo)
    if isinstance(y, frozenset):
        return frozenset(_sarg(z, mp, keys, memo) for z in y)
    if isinstance(y, tuple):
        return tuple(_sarg(z, mp, keys, memo) for z in y)
    return y


def rebuild_bool(op, a):
    if op == "ge0":
        return ge0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(*a[0])
    if op == "or":
        return bor(*a[0])
    return _mkb(op, *a)


def rebuild(x, a):
    op = x.op
    if op in REBUILD:
        return REBUILD[op](*a)
    if op == "fdiv":
        return fdiv(*a)
    if op == "mod":
        return mod(*a)
    if op == "lz":
        return lz(*a)
    if op == "inv":
        return inv(*a)
    if op == "pow2":
        return pow2(*a)
    if op == "pw":
        return pw(*a)
    if op == "ilog2":
        return ilog2(*a)
    if op == "bitlen":
        return bitlen(*a)
    if op == "brv":
        return brv(*a)
    if op == "popcount":
        return popcount(*a)
    if op == "and":
        l = list(a[0])
        return bitand(l[0], l[-1])
    if op == "xor":
        r = ZERO
        for q in a[0]:
            r = bitxor(r, q)
        return r
    if op == "min":
        l = list(a[0])
        r = l[0]
        for q in l[1:]:
            r = pmin(r, q)
        return r
    # atoms nested as args become Polys; keep canonical
    a = tuple((y.single_atom() if isinstance(x.args[i], Atom) and isinstance(y, Poly) and y.single_atom() is not None else y)
              for i, y in enumerate(a))
    n = atom(op, *a)
    if n is not x and x.ring:
        n.ring = True
    if n not in RANGE and x in RANGE and n is not x:
        RH = RANGE_HOOK.get(op)
        if RH:
            RH(n)
    return N(n)


RANGE_HOOK = {}
BOUND_HOOK = {}


# ---------------------------------------------------------------- equality
def equal(a, b, depth=7):
    """True: same value (under facts); False: normal forms differ; the second
    component is the residual difference."""
    if isinstance(a, Bl) or isinstance(b, Bl):
        if a is b:
            return True, None
        a, b = b2i(a) if isinstance(a, Bl) else a, b2i(b) if isinstance(b, Bl) else b
    a, b = N(a), N(b)
    if a is b:
        return True, None
    d = a - b
    if d is ZERO:
        return True, None
    conds = _conds(d)
    if conds and depth > 0:
        c = conds[0]
        with assume(c):
            if not contradictory():
                r1, w = equal(resimp(a), resimp(b), depth - 1)
                if not r1:
                    return False, ((c,) + (w[0] if w else ()), w[1] if w else d)
        nc = bnot(c)
        with assume(nc):
            if not contradictory():
                r1, w = equal(resimp(a), resimp(b), depth - 1)
                if not r1:
                    return False, ((nc,) + (w[0] if w else ()), w[1] if w else d)
        return True, None
    if decide_eq0(d):
        return True, None
    return False, ((), d)


def contradictory():
    for i, f in enumerate(F.stack):
        rest = F.stack[:i] + F.stack[i + 1:]
        old = F.stack
        F.stack = rest
        try:
            if decide(f) is False:
                return True
        finally:
            F.stack = old
    return False


def _open(c):
    """does a bound variable of an enclosing binder occur in c?  (an outer binder
    has a higher level than every binder inside it)"""
    top = -1
    bound = -1
    for z in fv(c):
        if z.op == "bv":
            top = max(top, z.args[0])
        elif z.op in ("sum", "prod", "mino"):
            bound = max(bound, z.args[2])
    return top > bound


def _conds(p):
    out = []
    seen = set()

    def walk(x):
        for a in fv(x):
            if a.op == "ite" and a.args[0] not in seen:
                c = a.args[0]
                if _open(c):
                    continue
                seen.add(c)
                out.append(c)
    walk(p)
    out.sort(key=lambda c: c.id)
    # split atomic conditions
    res = []
    for c in out:
        res.extend(_leaves(c))
    return [c for c in dict.fromkeys(res) if decide(c) is None]


def _leaves(c):
    if c.op in ("and", "or"):
        r = []
        for x in sorted(c.args[0], key=lambda z: z.id):
            r.extend(_leaves(x))
        return r
    if c.op == "not":
        return _leaves(c.args[0])
    return [c]


def resimp(p):
    """rebuild a term under the current facts (also applies equalities v = e)"""
    mp = {}
    for f in F.stack:
        if f.op == "eq0":
            l = _lin_eq_var(f.args[0])
            if l is not None and l[0] not in mp and not any(l[0] in fv(x) for x in mp.values()):
                mp[l[0]] = l[1]
    q = _resimp(p, {})
    if mp:
        q = subst(q, mp)
        q = _resimp(q, {})
    return q


def _resimp(x, memo):
    if x in memo:
        return memo[x]
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.t.items():
            t = N(c)
            for a, e in m:
                s = _resimp(a, memo)
                t = t * (s ** e if e > 0 else mono_poly(((a, e),)))
            r = r + t
    elif isinstance(x, Bl):
        d = decide(x)
        if d is not None:
            r = TRUE if d else FALSE
        else:
            r = rebuild_bool(x.op, [_rsarg(y, memo) for y in x.args])
    elif x.op == "ite":
        c = _resimp(x.args[0], memo)
        d = decide(c)
        if d is True:
            r = _resimp(x.args[1], memo)
        elif d is False:
            r = _resimp(x.args[2], memo)
        else:
            r = ite(c, _resimp(x.args[1], memo), _resimp(x.args[2], memo))
    elif x.op in ("sum", "prod", "mino"):
        v, n, body = open_sum(x)
        r = _BINDERS[x.op](v, _resimp(n, memo), _resimp(body, {}))
    elif x.op in ("var", "sym", "bv"):
        r = N(x)
    else:
        r = rebuild(x, [_rsarg(y, memo) for y in x.args])
    memo[x] = r
    return r


def _rsarg(y, memo):
    if isinstance(y, Atom):
        r = _resimp(y, memo)
        return r.single_atom() or r
    if isinstance(y, (Poly, Bl)):
        return _resimp(y, memo)
    if isinstance(y, frozenset):
        return frozenset(_rsarg(z, memo) for z in y)
    if isinstance(y, tuple):
        return tuple(_rsarg(z, memo) for z in y)
    return y


# ---------------------------------------------------------------- printing
def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: tuple(sorted((show_atom(a), e) for a, e in kv[0]))):
        ms = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not m:
            s = _num(c)
        elif c == 1:
            s = ms
        elif c == -1:
            s = "-" + ms
        else:
            s = _num(c) + "*" + ms
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def _num(c):
    if isinstance(c, int) and c > 2 ** 20:
        b = c.bit_length() - 1
        if c == 1 << b:
            return "2^%d" % b
        if c == (1 << (b + 1)) - 1:
            return "(2^%d-1)" % (b + 1)
    return str(c)


_satm = {}


def show_atom(a):
    if a in _satm:
        return _satm[a]
    op, g = a.op, a.args
    if op == "var":
        s = "%s#%d" % g
    elif op == "sym":
        s = str(g[0])
    elif op == "bv":
        s = "k%d" % g[0]
    elif op == "prod":
        s = "Π[k%d<%s](%s)" % (g[2], show(g[0]), show(g[1]))
    elif op == "mino":
        s = "min[k%d<%s](%s)" % (g[2], show(g[0]), show(g[1]))
    elif op == "sum":
        s = "Σ[k%d<%s](%s)" % (g[2], show(g[0]), show(g[1]))
    elif op == "ite":
        s = "(if %s then %s else %s)" % (show_bool(g[0]), show(g[1]), show(g[2]))
    elif op == "sel":
        s = "%s[%s]" % (_sh(g[0]), ",".join(_sh(x) for x in g[1:]))
    elif op == "fld":
        s = "%s.%s" % (_sh(g[0]), g[1])
    else:
        s = "%s(%s)" % (op, ", ".join(_sh(x) for x in g))
    _satm[a] = s
    return s


def _sh(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, Bl):
        return show_bool(x)
    if isinstance(x, (frozenset,)):
        return "{%s}" % ", ".join(sorted(_sh(y) for y in x))
    if isinstance(x, tuple):
        return "<%s>" % ", ".join(_sh(y) for y in x)
    return str(x)


def show_bool(b):
    if b.op in ("true", "false"):
        return b.op
    if b.op == "ge0":
        return "%s >= 0" % show(b.args[0])
    if b.op == "eq0":
        return "%s == 0" % show(b.args[0])
    if b.op == "not":
        return "!(%s)" % show_bool(b.args[0])
    if b.op in ("and", "or"):
        return "(" + (" && " if b.op == "and" else " || ").join(sorted(show_bool(x) for x in b.args[0])) + ")"
    return "%s" % (", ".join(_sh(x) for x in b.args))
