"""Random interpretation of value graphs.

Used for one purpose only: a syntactic mismatch between the extracted graph and
the specified graph is reported as a violation only if the two graphs denote
different values at some sampled valuation of their leaves (leaves are drawn
inside their proven ranges and inside the facts guarding them).  The analysed
program is never executed: only the two terms are interpreted.
"""
import random
from fractions import Fraction
from terms import *
import terms as T
import hashlib


class Undef(Exception):
    """no value can be given (unmodelled leaf, division by zero, ...)"""


class Reject(Exception):
    """sample violates a fact"""


KEYS = {}          # op -> f(env, atom, scope): names of objects that are equal whenever their contents are
SAMPLERS = []      # f(atom, key, env) -> int or None
EVALS = {}         # op -> f(env, atom, scope) -> value
BEVALS = {}        # bool op key -> f(env, bl, scope)
BIGSTEP = 200000


def _h(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


class Env:
    def __init__(self, seed, size=3):
        self.seed = seed
        self.rng = random.Random(seed)
        self.tab = {}
        self.memo = {}
        self.defs = {}
        self.size = size
        self.steps = 0
        self.aux = {}
        self.pending = set()

    # ---------------------------------------------------------------- terms
    def val(self, x, sc=None):
        sc = sc or {}
        if isinstance(x, Poly):
            return self.poly(x, sc)
        if isinstance(x, Bl):
            return self.bool(x, sc)
        if isinstance(x, Atom):
            return self.atom(x, sc)
        return x

    def poly(self, p, sc):
        r = 0
        for m, c in p.t.items():
            t = c
            for a, e in m:
                v = self.atom(a, sc)
                if e < 0:
                    if v == 0:
                        raise Undef("1/0")
                    t = t * Fraction(1) / Fraction(v) ** (-e)
                else:
                    t = t * v ** e
            r = r + t
        return fr(r) if isinstance(r, Fraction) else r

    def polymod(self, p, c, sc):
        """value of p modulo c (powers are taken modulo c)"""
        if not isinstance(c, int) or any(not isinstance(k, int) for k in p.t.values()):
            return self.poly(p, sc) % c
        r = 0
        for m, k in p.t.items():
            t = k % c
            for a, e in m:
                if e < 0:
                    return self.poly(p, sc) % c
                if a.op == "pow2":
                    x = self.val(a.args[0], sc)
                    if x < 0 or not isinstance(x, int):
                        return self.poly(p, sc) % c
                    v = pow(2, x, c)
                elif a.op == "pw":
                    x = self.val(a.args[1], sc)
                    if x < 0:
                        raise Undef("pw")
                    v = pow(self.polymod(a.args[0], c, sc), x, c)
                elif a.op == "sum":
                    n, body, lvl = a.args
                    b = atom("bv", lvl)
                    s2 = dict(sc)
                    v = 0
                    for i in range(int(self.val(n, sc))):
                        s2[b] = i
                        v += self.polymod(body, c, s2)
                elif a.op == "ite":
                    v = self.polymod(a.args[1] if self.bool(a.args[0], sc) else a.args[2], c, sc)
                else:
                    v = self.atom(a, sc)
                    if isinstance(v, Fraction):
                        return self.poly(p, sc) % c
                t = t * pow(v % c, e, c) % c
            r += t
        return r % c

    def scoped(self, a, sc):
        if not sc:
            return ()
        f = fv(a)
        return tuple(sorted(((k.id, sc[k]) for k in sc if k in f), key=lambda z: z[0])) if any(k in f for k in sc) else ()

    def scoped_p(self, p, sc):
        return tuple(self.scoped(a, {k: v for k, v in sc.items() if isinstance(k, Atom)}) for a in sorted(p.atoms(), key=lambda a: a.id))

    def atom(self, a, sc):
        if a in sc and a.op == "bv":
            return sc[a]
        k = (a, self.scoped(a, sc))
        if k in self.memo:
            v = self.memo[k]
            if v is Undef:
                raise Undef("cyclic")
            return v
        self.steps += 1
        if self.steps > BIGSTEP:
            raise Undef("too many steps")
        v = self._atom(a, sc)
        self.memo[k] = v
        return v

    def _atom(self, a, sc):
        op, g = a.op, a.args
        h = EVALS.get(op)
        if h is not None:
            return h(self, a, sc)
        if op == "fdiv":
            c = self.val(g[1], sc)
            if c == 0:
                raise Undef("division by zero")
            return fr(Fraction(self.val(g[0], sc)) // c) if isinstance(c, Fraction) else self._fl(self.val(g[0], sc), c)
        if op == "mod":
            c = self.val(g[1], sc)
            if c == 0:
                raise Undef("mod 0")
            return self.polymod(g[0], c, sc)
        if op == "lz":
            p = self.val(g[1], sc)
            if p <= 0:
                raise Undef("lz")
            e = self.polymod(g[0], p, sc)
            r = self.pick(("lz", e, p, g[2]), 0, g[2] - 1)
            return e + p * r
        if op == "ite":
            return self.val(g[1], sc) if self.bool(g[0], sc) else self.val(g[2], sc)
        if op == "pow2":
            e = self.val(g[0], sc)
            if abs(e) > 4096 or not isinstance(e, int):
                raise Undef("pow2")
            return 1 << e if e >= 0 else Fraction(1, 1 << -e)
        if op == "pw":
            b, e = self.val(g[0], sc), self.val(g[1], sc)
            if e < 0 or (e > 4096 and b not in (0, 1)):
                raise Undef("pw")
            return b ** e
        if op == "ilog2":
            x = self.val(g[0], sc)
            if x <= 0:
                raise Undef("ilog2")
            return int(x).bit_length() - 1
        if op == "bitlen":
            return int(self.val(g[0], sc)).bit_length()
        if op == "popcount":
            x = self.val(g[0], sc)
            if x < 0:
                raise Undef("popcount")
            return bin(int(x)).count("1")
        if op == "and":
            l = [self.val(x, sc) for x in g[0]]
            return l[0] & l[-1]
        if op == "xor":
            r = 0
            for x in g[0]:
                r ^= self.val(x, sc)
            return r
        if op == "min":
            return min(self.val(x, sc) for x in g[0])
        if op == "brv":
            x, k = self.val(g[0], sc), self.val(g[1], sc)
            if k < 0 or x < 0 or x >> k:
                raise Undef("brv")
            return int(bin(x | (1 << k))[3:][::-1], 2) if k else 0
        if op == "inv":
            x, p = self.val(g[0], sc), self.val(g[1], sc)
            try:
                return pow(int(x), -1, int(p))
            except ValueError:
                raise Undef("not invertible")
        if op == "mino":
            n, body, lvl = g
            n = self.val(n, sc)
            if n > 200 or n < 1:
                raise Undef("minimum over %d" % n)
            b = atom("bv", lvl)
            s2 = dict(sc)
            xs = []
            for k in range(int(n)):
                s2[b] = k
                xs.append(self.val(body, s2))
            return min(xs)
        if op == "prod":
            n, body, lvl = g
            n = self.val(n, sc)
            if n > 200:
                raise Undef("long product")
            b = atom("bv", lvl)
            r = 1
            s2 = dict(sc)
            for k in range(int(n)):
                s2[b] = k
                r = r * self.val(body, s2)
            return r
        if op == "sum":
            n, body, lvl = g
            n = self.val(n, sc)
            if n > 100000:
                raise Undef("long sum")
            b = atom("bv", lvl)
            r = 0
            s2 = dict(sc)
            for k in range(int(n)):
                s2[b] = k
                r = r + self.val(body, s2)
            return fr(r) if isinstance(r, Fraction) else r
        if op == "rec":
            pos, lvl, sysd, k = g[:4]
            return self.rec(pos, lvl, sysd, self.val(k, sc), tuple(self.val(i, sc) for i in g[4:]), sc)
        if op == "sel":
            ph = g[0]
            if ph.op == "bphi":
                fr_ = sc.get(("rec", ph.args[0])) or sc.get(atom("recfr", ph.args[0]))
                if fr_ is None:
                    raise Undef("free bphi")
                sysd, k, osc = fr_[0], fr_[1], fr_[2]
                return self.rec(ph.args[1], ph.args[0], sysd, k, tuple(self.val(i, sc) for i in g[1:]), osc)
            raise Undef("unsolved phi")
        if op == "first":
            lvl, cond, bound = g
            b = atom("bv", lvl)
            s2 = dict(sc)
            for k in range(0, 5000):
                s2[b] = k
                if self.bool(cond, s2):
                    return k
            raise Undef("first not found")
        if op == "bv":
            raise Undef("free bound variable")
        if op == "top":
            raise Undef("unmodelled: %s" % (g[0],))
        if op == "undef":
            raise Undef("undef")
        return self.leaf(a, sc)

    def _fl(self, x, c):
        if isinstance(x, Fraction):
            return fr(x // c)
        return x // c

    def rec(self, pos, lvl, sysd, k, idx, sc):
        if k < 0 or k > 5000:
            raise Undef("rec")
        nb, init, nxt, los, his = sysd[pos]
        key = ("rec", pos, id(sysd), k, idx, tuple(sorted((a.id, v) for a, v in sc.items() if isinstance(a, Atom) and a.op == "bv" and a.args[0] < lvl)))
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > BIGSTEP:
            raise Undef("too many steps")
        s2 = {a: v for a, v in sc.items()}
        for j, i in enumerate(idx):
            s2[atom("bv", lvl + 1 + j)] = i
        if k == 0:
            v = self.val(init, s2)
        else:
            s2[atom("bv", lvl)] = k - 1
            s2[atom("recfr", lvl)] = _Fr((sysd, k - 1, sc))
            # bphi atoms are part of fv: force the memo to see the frame
            s2[atom("bphi_guard", lvl)] = k
            v = self._nomemo(nxt, s2, lvl)
        self.memo[key] = v
        return v

    def _nomemo(self, t, sc, lvl):
        """evaluate a term whose bphi leaves depend on the frame: separate memo per frame"""
        old = self.memo
        self.memo = _Layer(old, lvl)
        try:
            return self.val(t, sc)
        finally:
            self.memo = old

    def junction(self, xs, sc, absorbing):
        """and / or; an operand without value does not matter when another one decides"""
        und = None
        for x in sorted(xs, key=lambda z: z.id):
            try:
                if self.bool(x, sc) is absorbing:
                    return absorbing
            except Undef as e:
                und = e
        if und is not None:
            raise und
        return not absorbing

    # ---------------------------------------------------------------- leaves
    def key(self, x, sc):
        """concrete key of an object name"""
        if isinstance(x, Atom):
            if x.op == "oite":
                return self.key(x.args[1] if self.bool(x.args[0], sc) else x.args[2], sc)
            if x.op in ("sel", "rec"):
                raise Undef("object through %s" % x.op)
            if x.op == "rng" and not sc.get("rngkey"):
                sc = dict(sc)
                sc["rngkey"] = True
            h = KEYS.get(x.op)
            if h is not None:
                return h(self, x, sc)
            return (x.op,) + tuple(self.key(y, sc) for y in x.args)
        if isinstance(x, Poly):
            s = x.single_atom()
            if s is not None and s.op in ("fld", "idx", "arg", "oite", "obj"):
                return self.key(s, sc)
            try:
                return self.val(x, sc)
            except Undef:
                if sc.get("rngkey"):
                    # inside the (array-valued) seed of a generator: named, not evaluated
                    return ("term", x.id, self.scoped_p(x, sc))
                raise
        if isinstance(x, Bl):
            return self.bool(x, sc)
        if isinstance(x, frozenset):
            return ("fs",) + tuple(sorted((self.key(y, sc) for y in x), key=repr))
        if isinstance(x, tuple):
            return tuple(self.key(y, sc) for y in x)
        return x

    def leaf(self, a, sc):
        if a in self.defs:
            d = self.defs[a]
            if a in self.pending:
                raise Undef("cyclic definition")
            self.pending.add(a)
            try:
                return self.val(d, sc)
            finally:
                self.pending.discard(a)
        k = (a.op,) + tuple(self.key(x, sc) for x in a.args)
        if k in self.tab:
            return self.tab[k]
        for f in SAMPLERS:
            v = f(a, k, self)
            if v is not None:
                self.tab[k] = v
                return v
        self.tab[k] = 0
        lo, hi = None, None
        los, his = bounds(a)
        for x in los:
            v = self.val(x, sc)
            v = -((-v) // 1)
            lo = v if lo is None else max(lo, v)
        for x in his:
            v = self.val(x, sc)
            v = v // 1
            hi = v if hi is None else min(hi, v)
        if a.op in ("len", "cols"):
            lo = max(lo or 0, 1)
            hi = min(hi if hi is not None else 10 ** 9, self.size)
            if hi < lo:
                raise Reject()
        if lo is not None and hi is not None and lo > hi:
            raise Reject()
        v = self.pick(k, lo, hi)
        self.tab[k] = v
        return v

    def pick(self, k, lo, hi):
        rng = random.Random(_h((self.seed, k)))
        if lo is None and hi is None:
            lo, hi = -(1 << 64), 1 << 64
        if lo is None:
            lo = hi - (1 << rng.choice((3, 16, 70)))
        if hi is None:
            hi = lo + (1 << rng.choice((3, 16, 70, 130)))
        lo, hi = int(lo), int(hi)
        c = rng.random()
        if hi - lo <= 3:
            return rng.randint(lo, hi)
        if c < 0.12:
            return hi
        if c < 0.2:
            return lo
        if c < 0.26:
            return hi - 1
        if c < 0.3:
            return lo + 1
        if c < 0.45:
            # log scale
            b = rng.randint(0, max((hi - lo).bit_length() - 1, 1))
            return lo + min(hi - lo, rng.getrandbits(b) if b else 0)
        if c < 0.5:
            b = rng.randint(0, max((hi - lo).bit_length() - 1, 1))
            return hi - min(hi - lo, rng.getrandbits(b) if b else 0)
        if c < 0.58:
            return min(hi, max(lo, 1 << rng.randint(0, max(hi.bit_length() - 1, 1))))
        return rng.randint(lo, hi)

    # ---------------------------------------------------------------- booleans
    def bool(self, b, sc=None):
        sc = sc or {}
        op = b.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "ge0":
            return self.poly(b.args[0], sc) >= 0
        if op == "eq0":
            return self.poly(b.args[0], sc) == 0
        if op == "not":
            return not self.bool(b.args[0], sc)
        if op == "and":
            return self.junction(b.args[0], sc, False)
        if op == "or":
            return self.junction(b.args[0], sc, True)
        if op == "b":
            g = b.args
            h = BEVALS.get(g[0])
            if h is not None:
                return h(self, b, sc)
            if g[0] == "top":
                raise Undef("unmodelled condition %s" % (g[1],))
            k = ("b",) + tuple(self.key(x, sc) for x in g)
            if g[0] in ("oeq", "aeq", "req"):
                if len(k[2]) == 2:
                    return True
            if k not in self.tab:
                self.tab[k] = bool(_h((self.seed, k)) & 1)
            return self.tab[k]
        raise Undef("bool %s" % op)

    # ---------------------------------------------------------------- facts
    def assume(self, facts):
        """orient equalities into definitions, then test the rest"""
        rest = []
        for f in facts:
            if f.op == "eq0":
                d = orient(f.args[0], self.defs)
                if d is not None:
                    self.defs[d[0]] = d[1]
                    continue
            rest.append(f)
        self.rest = rest

    def check(self):
        for f in self.rest:
            if not self.bool(f):
                raise Reject()


class _Fr(tuple):
    pass


class _Layer(dict):
    """memo layer of a rec frame: terms containing bphi of that level are local"""

    def __init__(self, base, lvl):
        super().__init__()
        self.base, self.lvl = base, lvl

    def local(self, k):
        a = k[0]
        if not isinstance(a, Atom):
            return False
        for x in fv(a):
            if x.op == "bphi" and x.args[0] >= 0:
                return True
        return False

    def __contains__(self, k):
        if dict.__contains__(self, k):
            return True
        if self.local(k):
            return False
        return k in self.base

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.base[k]

    def __setitem__(self, k, v):
        if self.local(k):
            dict.__setitem__(self, k, v)
        else:
            self.base[k] = v


LEAFOPS = ("var", "sym", "len", "val", "cols", "disc")


def orient(p, defs):
    """p = 0 as a definition  leaf := term  (acyclic w.r.t. defs)"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in LEAFOPS:
            v = m[0][0]
            if v in defs:
                continue
            rest = (p - mono_poly(m, c)) * (-c)
            deps = set(fv(rest))
            st = [d for d in deps if d in defs]
            while st:
                d = st.pop()
                for z in fv(defs[d]):
                    if z not in deps:
                        deps.add(z)
                        if z in defs:
                            st.append(z)
            if v in deps or any(v in fv(b) for b in deps if b is not v):
                continue
            # leaves in bounds of others are fine; prefer lengths
            pr = (v.op == "len", v.op == "var", v.id)
            if best is None or pr > best[0]:
                best = (pr, v, rest)
    return (best[1], best[2]) if best else None


def sample(facts, seeds, f, size=3):
    """evaluate f(env) at sample points satisfying the facts.
    yields (env, result); Undef results are skipped"""
    n = 0
    for s in seeds:
        env = Env(s, size)
        env.assume(facts)
        try:
            env.check()
            r = f(env)
        except Reject:
            continue
        except Undef as e:
            yield env, e
            continue
        except (OverflowError, ZeroDivisionError, RecursionError, MemoryError) as e:
            yield env, Undef(type(e).__name__)
            continue
        yield env, r
