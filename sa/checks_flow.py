"""Who-may-reach, type-containment and must-pass-through rules over the resolved call graph."""
import re

SECRET = {'bfv::SecretKey', 'pvw::PvwSk'}
SERVER_ROOTS = [
    r'^evaluations::Server::[a-z_0-9]+$',
    r'^evaluations::Evaluation::(unpack|gen_x_pows)$',
    r'^ksk::Ksk::(key_switch|try_from_decomposed_rlwes)$',
    r'^rgsw::RgswCt::(external_product|try_from_ksks)$',
    r'^bfv::GaliosKey::relinearize$',
    r'^bfv::RelinearizationKey::relinearize_poly$',
    r'^bfv::multiply_with_strategy$',
    r'^<&bfv::BfvCipherText as std::ops::(Add|Sub|Mul)<.*>>::\w+$',
    r'^omr::inner_product$',
]
SERVER_TYPES = ['evaluations::Server', 'evaluations::Evaluation', 'ksk::Ksk', 'rgsw::RgswCt',
                'bfv::GaliosKey', 'bfv::RelinearizationKey', 'bfv::BfvCipherText',
                'bfv::Plaintext', 'bfv::BfvParameters', 'rq::Poly']


def server_side(P, rep):
    roots = []
    for rx in SERVER_ROOTS:
        ks = P.find(rx)
        if not ks:
            rep.bad('anchor', rx, 'no function of the server side matches: the anchor is gone')
        roots += ks
    par = P.reach(roots)
    for k in sorted(par):
        b = P.B[k]
        hit = None
        for i, l in enumerate(b['locals']):
            s = P.adts_in(l[0]) & SECRET
            if s:
                hit = (sorted(s)[0], l[1] if len(l) > 1 and l[1] else '_%d' % i)
                break
        if hit:
            rep.bad('server-no-secret', k, 'handles a %s value (%s); reachable from the server side: %s'
                    % (hit[0], hit[1], ' -> '.join(P.path(par, k))))
        else:
            rep.ok('server-no-secret', k, 'no local of a secret-key type')
    byp = {}
    for s, a in P.adts.items():
        byp.setdefault(a['path'], []).append(s)
    tix = {t['s']: i for i, t in enumerate(P.T)}
    for t in SERVER_TYPES:
        if t not in byp:
            rep.bad('anchor', t, 'type not found')
            continue
        bad = set()
        for s in byp[t]:
            if s in tix:
                bad |= P.adts_in(tix[s]) & SECRET
        if bad:
            rep.bad('server-type-no-secret', t, 'a field (transitively) holds %s' % ', '.join(sorted(bad)))
        else:
            rep.ok('server-type-no-secret', t, 'no field path reaches a secret-key type')
    rep.info['server_reachable_functions'] = len(par)


# ---------------------------------------------------------------------------
GOOD_RNG = {'ThreadRng', 'OsRng'}
RNG_RX = re.compile(r'\b(\w*Rng\w*)\b')
RNG_TRAITS = {'RngCore', 'CryptoRng', 'Rng', 'SeedableRng', 'BlockRng', 'ReseedingRng'}
ANCHORS = {'ntt::NttOperator::new': 'public, deterministic choice of a root of unity',
           'rq::Poly::random_from_seed': 'expansion of a caller-supplied seed'}


def callers(P):
    up = {k: set() for k in P.B}
    for k in P.B:
        for c in P.callees(k):
            up[c].add(k)
    return up


def under_anchor(P, up, k):
    """every caller chain of k passes an anchor -> (True, None) or (False, chain)"""
    seen = set()
    wl = [(k, (k,))]
    while wl:
        x, ch = wl.pop()
        base = x.split('@')[0]
        base = re.sub(r'::\{closure#\d+\}', '', base)
        if base in ANCHORS or x in seen:
            continue
        seen.add(x)
        if not up[x]:
            return False, ch
        for c in up[x]:
            wl.append((c, ch + (c,)))
    return True, None


def rng_types(P, b):
    out = set()
    for l in b['locals']:
        s = P.T[l[0]]['s']
        for m in RNG_RX.findall(s):
            if m not in RNG_TRAITS and m not in GOOD_RNG:
                out.add(m)
    return out


def randomness_sources(P, rep):
    up = callers(P)
    for a in ANCHORS:
        if a not in P.B:
            rep.bad('anchor', a, 'function not found')
    n = 0
    for k in sorted(P.B):
        if re.search(r' as rand(_core)?::RngCore>', k):
            rep.bad('csprng-only', k, 'the crate implements a random generator of its own')
        rt = rng_types(P, P.B[k])
        uses = any('rand' in (c.get('orig') or '') or 'rand' in (c.get('res') or '') for _, c, *_ in P.calls(k))
        if not rt:
            if uses:
                n += 1
                rep.ok('csprng-only', k, 'draws only from the operating-system seeded generator or its type parameter')
            continue
        okk, ch = under_anchor(P, up, k)
        n += 1
        if okk:
            rep.ok('csprng-only', k, 'seeded generator %s used only below %s' % (sorted(rt), '/'.join(sorted(ANCHORS))))
        else:
            rep.bad('csprng-only', k, 'uses the seeded generator %s outside root-of-unity search and seed expansion (caller chain %s)'
                    % (sorted(rt), ' <- '.join(ch)))
    return n


FILL = {'rand::Rng::fill', 'rand::RngCore::fill_bytes', 'rand::RngCore::try_fill_bytes', 'rand::Rng::try_fill'}
GEN = {'rand::Rng::gen', 'rand::random', 'rand::Rng::random'}


def strip_ref(P, ti):
    while P.T[ti]['k'] == 'ref':
        ti = P.T[ti]['inner']
    return ti


def good_rng_arg(P, cal):
    for a in cal.get('args', []):
        if isinstance(a, int):
            s = P.T[strip_ref(P, a)]['s']
            m = RNG_RX.findall(s)
            if any(x in GOOD_RNG for x in m):
                return True
    return False


def writers(b):
    """local -> list of (block, kind, rvalue/callee, place)"""
    w = {}
    for bi, bl in enumerate(b['blocks']):
        if not bl:
            continue
        for s in bl['s']:
            if s[0] == '=':
                w.setdefault(s[1]['l'], []).append((bi, 'a', s[2], s[1]))
        if bl['t'][0] == 'call':
            w.setdefault(bl['t'][3]['l'], []).append((bi, 'c', bl['t'], bl['t'][3]))
    return w


def origin(b, w, l):
    """follow single-definition copy/move/ref/cast chains to the root local"""
    seen = set()
    while l not in seen:
        seen.add(l)
        ds = [d for d in w.get(l, []) if not d[3]['p']]
        if len(ds) != 1 or ds[0][1] != 'a':
            return l
        rv = ds[0][2]
        src = None
        if rv[0] == 'use':
            o = rv[1]
            p = o.get('copy') or o.get('move')
            if p and all(e[0] == 'deref' for e in p['p']):
                src = p['l']
        elif rv[0] == 'ref':
            p = rv[1]
            if all(e[0] == 'deref' for e in p['p']):
                src = p['l']
        elif rv[0] == 'cast':
            o = rv[2]
            p = o.get('copy') or o.get('move')
            if p and all(e[0] == 'deref' for e in p['p']):
                src = p['l']
        if src is None:
            return l
        l = src
    return l


def reach_wo(P, b, starts, target, cut):
    """is block `target` reachable from blocks in `starts` without running through a block of `cut`"""
    seen, wl = set(), list(starts)
    while wl:
        x = wl.pop()
        if x in seen or b['blocks'][x] is None:
            continue
        seen.add(x)
        if x == target:
            return True
        if x in cut:
            continue
        wl += P.succs(b['blocks'][x])
    return False


def fresh(P, key, call_block, operand, depth=0):
    """is the byte string `operand` used by the call in `call_block` freshly drawn on every execution?
    -> ('ok'|'bad'|'unk', text)"""
    b = P.B[key]
    if depth > 6:
        return 'unk', 'too deep'
    if 'const' in operand:
        return 'bad', 'the seed is a compile-time constant'
    w = writers(b)
    pl = operand.get('copy') or operand.get('move')
    if pl['p'] and b['closure'] and pl['l'] == 1:
        return 'bad', 'the seed is captured from outside the closure that consumes it, so every invocation shares it'
    L = origin(b, w, pl['l'])
    ds = w.get(L, [])
    if any(d[1] == 'a' and d[2][0] == 'use' and ((d[2][1].get('copy') or d[2][1].get('move') or {}).get('l') == 1)
           and b['closure'] for d in ds):
        return 'bad', 'the seed is captured from outside the closure that consumes it, so every invocation shares it'
    if 1 <= L <= b['argc'] and not b['closure']:
        # parameter: every caller has to pass a fresh one
        res = ('unk', 'parameter without a caller')
        for k2 in P.B:
            for bi, cal, args, *_ in P.calls(k2):
                if cal.get('key') == key:
                    r = fresh(P, k2, bi, args[L - 1], depth + 1)
                    if r[0] != 'ok':
                        return r
                    res = r
        return res
    fills, other = set(), set()
    for bi, cal, args, dest, tgt, sp in P.calls(key):
        o = cal.get('orig')
        if o in FILL:
            for a in args[1:]:
                p = a.get('copy') or a.get('move')
                if p and origin(b, w, p['l']) == L:
                    (fills if good_rng_arg(P, cal) else other).add(bi)
        elif dest['l'] == L and not dest['p']:
            if o in GEN and (good_rng_arg(P, cal) or o == 'rand::random'):
                fills.add(bi)
            elif cal.get('key') in P.B and returns_fresh(P, cal['key'], depth + 1):
                fills.add(bi)
            else:
                other.add(bi)
    for d in ds:
        if d[1] == 'a' and d[0] not in fills:
            other.add(d[0])
    if not fills:
        return 'bad', 'the seed is never filled from the operating-system generator in the function that uses it'
    starts = [0]
    if reach_wo(P, b, [0], call_block, fills) and 0 not in fills:
        return 'bad', 'a path reaches the expansion without a fresh draw of the seed'
    for s in P.succs(b['blocks'][call_block]):
        if reach_wo(P, b, [s], call_block, fills):
            return 'bad', 'the same seed is expanded again on a loop path without being redrawn'
    for o in other:
        if o == call_block:
            continue
        for s in (P.succs(b['blocks'][o]) if o not in fills else []):
            if s not in fills and reach_wo(P, b, [s], call_block, fills):
                return 'bad', 'the seed is overwritten between its draw and its use'
    return 'ok', 'must-pass-through: every execution of the expansion is preceded by its own draw'


def returns_fresh(P, key, depth):
    b = P.B[key]
    rets = [i for i, bl in enumerate(b['blocks']) if bl and bl['t'][0] == 'return']
    for r in rets:
        v = fresh(P, key, r, {'copy': {'l': 0, 'p': []}}, depth)
        if v[0] != 'ok':
            return False
    return bool(rets)


def seeds(P, rep):
    n = 0
    for k in sorted(P.B):
        for bi, cal, args, dest, tgt, sp in P.calls(k):
            if cal.get('key') == 'rq::Poly::random_from_seed':
                n += 1
                r, t = fresh(P, k, bi, args[2])
                inst = '%s -> Poly::random_from_seed' % k
                if r == 'ok':
                    rep.ok('fresh-seed', inst, t)
                elif r == 'bad':
                    rep.bad('fresh-seed', inst, t + ' (%s)' % sp)
                else:
                    rep.unk('fresh-seed', inst, t)
    if n < 2:
        rep.bad('coverage-floor', 'fresh-seed', 'only %d seed expansions found, 2 expected (encryption, key-switching keys)' % n)
