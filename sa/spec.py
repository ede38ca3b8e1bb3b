"""Specification framework: a function's extracted value graph against its
specified value graph.

Every FnSpec names a function of the crate, builds its (symbolic) arguments
and the value it has to denote.  Verdicts:
  proved      the graphs are equal as normal forms (under the guarding facts)
  violated    they denote different values at a sampled valuation (ev.py)
  undecided   neither (reported in the evidence, never an alarm)
A spec that also provides `contract` is used as the callee summary everywhere
else, once its preconditions are proven at the call site.
"""
import time
import traceback
import signal
from terms import *
import terms as T
from values import *
import values as VV
import interp
from interp import *
import models
import ev
import loops


class Lz:
    """expected: some integer in [0, k*p) congruent to e modulo p"""

    def __init__(self, e, p, k):
        self.e, self.p, self.k = N(e), N(p), k


class Pred:
    """expected: predicate on the value; f(got) -> [(label, Bl)] that must all hold"""

    def __init__(self, f):
        self.f = f


class Any:
    """expected: anything"""


class Rows:
    """expected array given by length and element function (possibly nested)"""

    def __init__(self, n, f):
        self.n, self.f = N(n), f


class Items:
    """expected list, item by item"""

    def __init__(self, l):
        self.l = list(l)


class FnSpec:
    def __init__(self, key, pids, build, contract=None, total=True, note="", tier="quick", limit=0):
        self.limit = limit
        self.tier = tier
        self.key, self.pids, self.build, self.contract, self.total, self.note = key, pids, build, contract, total, note


SPECS = {}


def spec(key, *pids, contract=None, total=True, name=None):
    def deco(f):
        SPECS[name or key] = FnSpec(key, pids, f, contract, total)
        return f
    return deco


class Case:
    """one symbolic call: args, preconditions and expectations"""

    def __init__(self, args, want=None, outs=(), pre=(), size=3, diverges=False, label="", keep=(), setup=None, seeds=None):
        self.args, self.want, self.outs, self.pre = args, want, outs, pre
        self.size, self.diverges, self.label, self.seeds = size, diverges, label, seeds


class Out:
    """verdict collector for one spec"""

    def __init__(self):
        self.proved, self.bad, self.unk = [], [], []
        self.visited = set()
        self.contracts = set()
        self.missing = False


def alpha(I, x):
    return I.rd(x)


def reset_facts():
    F.stack[:] = []


SEEDS = range(1, 241)


def fmt_env(env, terms, n=14):
    out = []
    for k, v in list(env.tab.items()):
        if len(out) >= n:
            break
        s = _ck(k)
        out.append("%s=%s" % (s, v))
    return ", ".join(out)


def _ck(k):
    if isinstance(k, tuple):
        if k and k[0] in ("sym",) and len(k) == 2:
            return str(k[1])
        if k and k[0] == "val":
            return _ck(k[2])
        if k and k[0] == "fld":
            return "%s.%s" % (_ck(k[1]), k[2])
        if k and k[0] == "idx":
            return "%s[%s]" % (_ck(k[1]), _ck(k[2]))
        if k and k[0] in ("arg", "obj") and len(k) == 2:
            return str(k[1])
        if k and k[0] == "len":
            return "len(%s)" % _ck(k[1])
        return "(%s)" % " ".join(_ck(z) for z in k)
    return str(k)


class Checker:
    def __init__(self, I, out, fn, size=3, seeds=None):
        self.I, self.out, self.fn, self.size = I, out, fn, size
        self.seeds = seeds or SEEDS

    # -------------------------------------------------------- scalars
    def scalar(self, lab, got, want, facts):
        if isinstance(want, Lz):
            return self.lazy(lab, got, want, facts)
        if isinstance(got, Bl):
            got = b2i(got) if not isinstance(want, Bl) else got
        if isinstance(want, Bl) and isinstance(got, Poly):
            want = b2i(want)
        if isinstance(want, (int,)):
            want = N(want)
        try:
            with with_facts(facts):
                ok = equal(got, want)[0]
                if not ok and isinstance(want, Poly) and isinstance(got, Poly):
                    ok = self.modular(got, want)
        except RecursionError:
            ok = False
        if ok:
            self.out.proved.append((lab, "graph equality"))
            return True

        def diff(env):
            a, b = env.val(got), env.val(want)
            return None if a == b else (a, b)
        return self.refute(lab, diff, facts, "extracted %s ; specified %s" % (short(got), short(want)))

    def modular(self, got, want):
        sa = want.single_atom()
        if sa is None or sa.op != "mod":
            return False
        e, p = sa.args
        return self.in_range(got, ZERO, p - 1) and self.congruent(got, e, p)

    def in_range(self, x, lo, hi):
        return self._split(x, lambda y: prove_ge0(y - lo) and prove_ge0(hi - y))

    def congruent(self, a, b, p):
        if p.single_mono() is None:
            return False
        return self._split(a - b, lambda d: strip(d, p) is ZERO or mod(d, p) is ZERO)

    def _split(self, x, f, depth=8):
        if f(x):
            return True
        if depth == 0:
            return False
        cs = T._conds(x)
        if not cs:
            return False
        c = cs[0]
        for cc in (c, bnot(c)):
            with assume(cc):
                if not contradictory():
                    if not self._split(resimp(x), f, depth - 1):
                        return False
        return True

    def lazy(self, lab, got, w, facts):
        with with_facts(facts):
            sa = got.single_atom()
            ok = False
            if sa is not None and sa.op == "lz" and sa.args[1] is w.p and sa.args[2] <= w.k:
                ok = strip(sa.args[0] - w.e, w.p) is ZERO
            if not ok:
                ok = self.in_range(got, ZERO, w.p * w.k - 1) and self.congruent(got, w.e, w.p)
        if ok:
            self.out.proved.append((lab, "range [0,%dp) and congruence" % w.k))
            return True

        def diff(env):
            a, e, p = env.val(got), env.val(w.e), env.val(w.p)
            if 0 <= a < w.k * p and (a - e) % p == 0:
                return None
            return (a, "in [0,%d*%d) congruent to %d" % (w.k, p, e))
        return self.refute(lab, diff, facts, "extracted %s ; specified ≡ %s mod %s in [0,%dp)" % (short(got), short(w.e), short(w.p), w.k))

    def holds(self, lab, b, facts):
        with with_facts(facts):
            d = decide(b)
            if d is None:
                ok, _ = equal(b2i(b), ONE)
                d = True if ok else None
        if d is True:
            self.out.proved.append((lab, "decided"))
            return True

        def diff(env):
            return None if env.bool(b) else ("false", "true")
        return self.refute(lab, diff, facts, "condition %s" % short(b))

    def refute(self, lab, diff, facts, text):
        n = und = 0
        why = None
        t0 = time.time()
        spent = self.out.__dict__.setdefault('spent', [0.0])
        cap = 25 if spent[0] < 60 else 5
        for env, r in ev.sample(facts, self.seeds, diff, self.size):
            if time.time() - t0 > cap:
                break
            if isinstance(r, ev.Undef):
                und += 1
                why = str(r)
                if und > 60 and n == 0:
                    break
                continue
            n += 1
            if r is not None:
                self.out.bad.append((lab, "%s. The two graphs differ at: %s : code gives %s, specified %s"
                                     % (text, fmt_env(env, None), r[0], r[1])))
                return False
        spent[0] += time.time() - t0
        self.out.unk.append((lab, "not proved; no difference at %d sampled valuations%s [%s]" % (n, (" (%d undefined: %s)" % (und, why)) if und else "", text)))
        return None

    # -------------------------------------------------------- values
    def value(self, lab, got, want, facts):
        I = self.I
        if isinstance(want, Any) or want is None or want is Any:
            return
        if isinstance(got, Ref):
            got = I.rd(got)
        if isinstance(want, Ref):
            want = I.rd(want)
        if isinstance(got, Top):
            self.out.unk.append((lab, "unmodelled value: %s" % got.why))
            return
        if isinstance(want, Pred):
            for item in want.f(got):
                l2, b = item[:2]
                if isinstance(b, tuple):
                    self.value("%s: %s" % (lab, l2), b[0], b[1], list(facts) + list(item[2] if len(item) > 2 else ()))
                elif isinstance(b, Bl):
                    self.holds("%s: %s" % (lab, l2), b, list(facts) + list(item[2] if len(item) > 2 else ()))
                elif b is None:
                    self.out.unk.append(("%s: %s" % (lab, l2), "not decided"))
                else:
                    self.out.bad.append(("%s: %s" % (lab, l2), str(b)))
            return
        if isinstance(want, (Poly, Bl, int, Lz)):
            if not is_scalar(got):
                self.out.unk.append((lab, "scalar expected, analysis has %s" % type(got).__name__))
                return
            return self.scalar(lab, got, want, facts)
        if isinstance(want, Rows):
            if isinstance(got, RingC):
                got = I.ring_rows(got)
            if not isinstance(got, (Arr, Lst, Cat)):
                self.out.unk.append((lab, "array expected, analysis has %s" % type(got).__name__))
                return
            self.scalar(lab + ".len", alen(got), want.n, facts)
            c = want.n.const()
            if c is not None and c <= 3:
                for k in range(int(c)):
                    with with_facts(facts):
                        g = aget(got, N(k))
                        w = want.f(N(k))
                    self.value("%s[%d]" % (lab, k), g, w, facts)
                return
            v = fresh_ix(want.n)
            fs = list(facts) + [ge0(N(v)), ge0(want.n - 1 - N(v))]
            with with_facts(fs):
                g = aget(got, N(v))
                w = want.f(N(v))
            self.value(lab + "[i]", g, w, fs)
            return
        if isinstance(want, Items):
            if not isinstance(got, (Arr, Lst, Cat)):
                self.out.unk.append((lab, "array expected, analysis has %s" % type(got).__name__))
                return
            if self.scalar(lab + ".len", alen(got), N(len(want.l)), facts) is True:
                for k, w in enumerate(want.l):
                    with with_facts(facts):
                        g = aget(got, N(k))
                    self.value("%s[%d]" % (lab, k), g, w, facts)
            return
        if isinstance(want, RingC):
            if isinstance(got, RingC):
                return self.scalar(lab, got.r, want.r, facts)
            self.out.unk.append((lab, "ring element expected"))
            return
        if isinstance(want, (Lst, Arr, Cat)):
            w2 = want
            return self.value(lab, got, Rows(alen(w2), lambda i: aget(w2, i)), facts)
        if isinstance(want, Agg):
            got = I.expand(got)
            if not isinstance(got, Agg) or len(got.f) != len(want.f):
                self.out.unk.append((lab, "struct shapes differ"))
                return
            for k, (a, b) in enumerate(zip(got.f, want.f)):
                self.value("%s.%s" % (lab, I.fieldname(want.ty, k) if isinstance(want.ty, int) else k), a, b, facts)
            return
        if isinstance(want, En):
            got = I.expand(got)
            if not isinstance(got, En):
                self.out.unk.append((lab, "enum expected"))
                return
            self.scalar(lab + ".variant", got.d, want.d, facts)
            for k in want.pl:
                if k in got.pl:
                    f2 = list(facts) + [eq(want.d, N(k))]
                    if any(f is FALSE for f in f2):
                        continue
                    for j, (a, b) in enumerate(zip(got.pl[k], want.pl[k])):
                        self.value("%s.%d.%d" % (lab, k, j), a, b, [f for f in f2 if f is not TRUE])
            return
        if isinstance(want, Ob):
            if isinstance(got, Ob):
                if got.key is want.key:
                    self.out.proved.append((lab, "same object"))
                    return
                with with_facts(facts):
                    ka, kb = resimp(N(got.key)), resimp(N(want.key))
                if ka is kb:
                    self.out.proved.append((lab, "same object"))
                    return

                def diff(env):
                    a, b = env.key(got.key, {}), env.key(want.key, {})
                    return None if a == b else (_ck(a), _ck(b))
                return self.refute(lab, diff, facts, "object %s ; specified %s" % (show_atom(got.key), show_atom(want.key)))
            self.out.unk.append((lab, "object expected, analysis has %s" % type(got).__name__))
            return
        if isinstance(want, tuple) and want and want[0] == "pair":
            got = I.expand(got)
            if not isinstance(got, Agg) or len(got.f) != len(want[1]):
                self.out.unk.append((lab, "tuple expected, analysis has %s" % type(got).__name__))
                return
            for k, b in enumerate(want[1]):
                self.value("%s.%d" % (lab, k), got.f[k], b, facts)
            return
        if isinstance(want, tuple) and want and want[0] == "fields":
            # partial struct: {index: want}
            got = I.expand(got)
            if not isinstance(got, Agg):
                self.out.unk.append((lab, "struct expected, analysis has %s" % type(got).__name__))
                return
            for k, b in want[1].items():
                i = I.fieldindex(got.ty, k)
                if i is None:
                    self.out.unk.append((lab, "no field %s" % k))
                    continue
                self.value("%s.%s" % (lab, k), got.f[i], b, facts)
            return
        self.out.unk.append((lab, "no comparison for %s" % type(want).__name__))


def short(x, n=420):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"


class Timeout(Exception):
    pass


def run_spec(prog, sp, setup, limit=120):
    """analyse one function against its spec -> Out"""
    out = Out()
    body = prog.bodies.get(sp.key)
    if body is None:
        cands = [k for k in prog.bodies if k.split("@")[0] == sp.key]
        if cands:
            body = prog.bodies[sorted(cands, key=lambda k: ("@[T]" in k or "@[R]" in k, k))[0]]
    if body is None:
        out.missing = True
        out.unk.append((sp.key, "function not found in the crate"))
        return out
    out.missing = False
    reset_facts()
    if sp.build is None:
        return out
    I0 = setup(prog)
    try:
        cases = sp.build(I0)
    except (Unmodelled, Diverge) as e:
        out.unk.append((sp.key, "specification arguments: %s" % (str(e) or type(e).__name__)))
        return out
    if isinstance(cases, Case):
        cases = [cases]
    I0.used = set()
    t0 = time.time()
    for n, cs in enumerate(cases):
        if out.bad and time.time() - t0 > 20:
            out.unk.append((sp.key, "%d further cases not analysed after a violation" % (len(cases) - n)))
            break
        I = I0
        I.obl, I.notes, I.panics, I.calls = [], [], [], []
        I.visited = set()
        lab = sp.key + ((" {%s}" % cs.label) if cs.label else "")
        reset_facts()
        for f in cs.pre:
            push_fact(f)
        pre = list(F.stack)
        I.nocontract = frozenset()
        if len(cs.args) != body["argc"]:
            out.unk.append((lab, "signature differs from the specified one"))
            continue
        T._DL.t = time.time() + limit
        try:
            r = I.run_body(body, cs.args)
            facts = list(F.stack)
            dv = False
        except Diverge:
            dv = True
        except Unmodelled as e:
            out.unk.append((lab, "unmodelled: %s" % e))
            reset_facts()
            continue
        except RecursionError:
            out.unk.append((lab, "graph too deep"))
            reset_facts()
            continue
        except TimeUp:
            T._DL.t = None
            out.unk.append((lab, "time limit"))
            if not cs.diverges:
                second_look(prog, I, sp, setup, n, body, out, lab, limit)
            reset_facts()
            continue
        finally:
            T._DL.t = None
        out.contracts |= I.used
        reset_facts()
        out.visited |= I.visited
        ck = Checker(I, out, sp.key, cs.size, cs.seeds)
        T._DL.t = time.time() + limit
        try:
            judge(I, ck, out, sp, cs, lab, dv, pre, None if dv else facts, None if dv else r)
        except TimeUp:
            out.unk.append((lab, "time limit while comparing graphs"))
            reset_facts()
        except RecursionError:
            out.unk.append((lab, "graph too deep"))
            reset_facts()
        finally:
            T._DL.t = None
    return out


class Sampled(Checker):
    """comparison by evaluation only"""

    def __init__(self, *a):
        super().__init__(*a)

    def scalar(self, lab, got, want, facts):
        got, want = N(b2i(got) if isinstance(got, Bl) else got), N(b2i(want) if isinstance(want, Bl) else want)
        if got is want:
            return True

        def diff(env):
            a, b = env.val(got), env.val(want)
            return None if a == b else (a, b)
        return self.refute(lab, diff, facts, "extracted %s ; specified %s" % (short(got, 160), short(want, 160)))


def second_look(prog, I, sp, setup, n, body, out, lab, limit):
    """the graph could not be simplified in time: extract it with shallow proofs and compare by evaluation"""
    T.CHEAP[0] = True
    T._bump[0] += 1
    keep = dict(I.cells)
    try:
        reset_facts()
        cases = sp.build(I)
        cs = [cases][0] if isinstance(cases, Case) else cases[n]
        for f in cs.pre:
            push_fact(f)
        I.obl, I.notes, I.panics, I.calls = [], [], [], []
        T._DL.t = time.time() + limit
        r = I.run_body(body, cs.args)
        facts = list(F.stack)
        o2 = Out()
        ck = Sampled(I, o2, sp.key, cs.size, cs.seeds)
        if cs.want is not None:
            want = cs.want(r) if callable(cs.want) and not isinstance(cs.want, (Pred, Rows, Items, Any, type)) else cs.want
            ck.value(lab + " result", r, want, facts)
        for nm, ref, want in cs.outs:
            ck.value("%s %s" % (lab, nm), I.rd(ref), want, facts)
        out.bad += o2.bad
    except (Unmodelled, Diverge, RecursionError, TimeUp):
        pass
    finally:
        T._DL.t = None
        T.CHEAP[0] = False
        T._bump[0] += 1
        I.cells = keep


def judge(I, ck, out, sp, cs, lab, dv, pre, facts, r):
    if True:
        if cs.diverges:
            if not dv:
                with with_facts(facts):
                    dv = contradictory()
            if dv:
                out.proved.append((lab, "every path panics"))
            else:
                # some path returns: is it reachable?
                def any_(env):
                    return ("returns", "must panic")
                ck.refute(lab + " must be refused", any_, facts, "a path returns a value")
            return
        if dv:
            def any_(env):
                return ("panics", "must return")
            ck.refute(lab + " returns", any_, pre, "no path returns")
            return
        # obligations
        seen = set()
        nok = 0
        for kind, where, ok, det in I.obl:
            if ok:
                nok += 1
                continue
            if not isinstance(det, tuple) or len(det) != 4:
                continue
            what, t, rg, fs = det
            key = (kind, where, what, t.id, tuple(f.id for f in fs))
            if key in seen:
                continue
            seen.add(key)
            oblig(ck, lab, kind, where, what, t, rg, fs)
        if nok:
            out.proved.append((lab, "%d no-overflow / in-bounds / shift obligations" % nok))
        if sp.total:
            for (where, callee, fs) in I.panics:
                if any(f.op == "b" and f.args[0] == "top" for f in fs):
                    continue

                def pan(env):
                    return ("panic in %s" % where, "no panic")
                k2 = ("panic", where, tuple(f.id for f in fs))
                if k2 in seen:
                    continue
                seen.add(k2)
                with with_facts(fs):
                    if contradictory():
                        continue
                n0 = len(out.unk)
                ck.refute("%s: panic reached in %s" % (lab, where), pan, fs, "panic guarded by %s" % short(list(fs)[-3:]))
                if len(out.unk) > n0:
                    out.unk.pop()
        try:
            if cs.want is not None:
                want = cs.want(r) if callable(cs.want) and not isinstance(cs.want, (Pred, Rows, Items, Any, type)) else cs.want
                ck.value(lab + " result", r, want, facts)
            for nm, ref, want in cs.outs:
                ck.value("%s %s" % (lab, nm), I.rd(ref), want, facts)
        except Unmodelled as e:
            out.unk.append((lab, "unmodelled: %s" % e))
        for nt in sorted(set(I.notes)):
            out.unk.append((lab, nt))


def oblig(ck, lab, kind, where, what, t, rg, fs):
    l = "%s: %s of `%s` in %s" % (lab, kind, what, where)
    if isinstance(t, Bl):
        def diff(env):
            return None if env.bool(t) else ("index outside the array", "in bounds")
        with with_facts(fs):
            try:
                ok = decide(t) is True or equal(b2i(t), ONE)[0]
            except RecursionError:
                ok = False
        if ok:
            ck.out.proved.append((l, "case split"))
            return
        ck.refute(l, diff, fs, short(t))
    else:
        lo, hi = rg

        def diff(env):
            v = env.val(t)
            return None if lo <= v <= hi else (v, "in [%d, %d]" % (lo, hi))
        with with_facts(fs):
            if ck.in_range(t, N(lo), N(hi)):
                ck.out.proved.append((l, "case split"))
                return
        ck.refute(l, diff, fs, short(t))
