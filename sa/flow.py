"""Call-graph / dominance / def-use queries over the MIR dump (no term engine)."""
import re


class Prog:
    def __init__(self, d):
        self.T = d['types']
        self.adts = d['adts']
        self.B = {b['key']: b for b in d['bodies']}
        self._cg = {}

    # ---------------------------------------------------------------- types
    def adts_in(self, ti, seen=None, out=None):
        """all ADT paths transitively contained in type index ti"""
        if out is None:
            out, seen = set(), set()
        if ti in seen or ti is None:
            return out
        seen.add(ti)
        t = self.T[ti]
        k = t['k']
        if k == 'adt':
            out.add(t['path'])
            for a in t.get('args', []):
                if isinstance(a, int):
                    self.adts_in(a, seen, out)
            a = self.adts.get(t['s'])
            if a:
                for v in a['variants']:
                    for f in v['fields']:
                        self.adts_in(f[1], seen, out)
        elif k == 'tuple':
            for e in t['elems']:
                self.adts_in(e, seen, out)
        elif k in ('ref', 'ptr', 'array', 'slice'):
            self.adts_in(t.get('inner'), seen, out)
        return out

    # ----------------------------------------------------------- call graph
    def callees(self, key):
        """local bodies a body may run: direct callees, closures it creates, fn items it names"""
        if key in self._cg:
            return self._cg[key]
        out = {}
        b = self.B[key]

        def op(o, sp):
            if isinstance(o, dict) and 'const' in o:
                ty = o['const'].get('ty')
                if ty is not None:
                    s = self.T[ty]
                    k = s.get('key') if s['k'] == 'closure' else (s['callee'].get('key') if s['k'] == 'fndef' else None)
                    if k in self.B:
                        out.setdefault(k, sp)

        def walk(x, sp):
            if isinstance(x, dict):
                if 'const' in x:
                    op(x, sp)
                elif x.get('k') == 'closure' and 'ty' in x:
                    k = self.T[x['ty']].get('key')
                    if k in self.B:
                        out.setdefault(k, sp)
                else:
                    for v in x.values():
                        walk(v, sp)
            elif isinstance(x, list):
                for v in x:
                    walk(v, sp)

        for bi, bl in enumerate(b['blocks']):
            if not bl:
                continue
            for s in bl['s']:
                if s[0] == '=':
                    walk(s[2], s[3] if len(s) > 3 else None)
            t = bl['t']
            if t[0] == 'call':
                if t[1].get('key') in self.B:
                    out.setdefault(t[1]['key'], bl.get('sp'))
                walk(t[2], bl.get('sp'))
        self._cg[key] = out
        return out

    def reach(self, roots):
        """-> {key: (parent or None)}"""
        par = {r: None for r in roots}
        wl = list(roots)
        while wl:
            k = wl.pop()
            for c in self.callees(k):
                if c not in par:
                    par[c] = k
                    wl.append(c)
        return par

    def path(self, par, k):
        p = []
        while k is not None:
            p.append(k)
            k = par[k]
        return p[::-1]

    def calls(self, key):
        """(block, callee dict, args, dest, target, span)"""
        for bi, bl in enumerate(self.B[key]['blocks']):
            if bl and bl['t'][0] == 'call':
                t = bl['t']
                yield bi, t[1], t[2], t[3], t[4], bl.get('sp')

    # ------------------------------------------------------------ dominance
    def succs(self, bl):
        t = bl['t']
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == 'call':
            return [t[4]] if t[4] is not None else []
        if t[0] == 'assert':
            return [t[3]]
        return []

    def doms(self, key):
        bls = self.B[key]['blocks']
        n = len(bls)
        preds = [[] for _ in range(n)]
        order, seen = [], set()

        def dfs(i):
            st = [(i, iter(self.succs(bls[i])))]
            seen.add(i)
            while st:
                u, it = st[-1]
                for v in it:
                    if bls[v] is None:
                        continue
                    preds[v].append(u)
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(self.succs(bls[v]))))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(0)
        order.reverse()
        full = set(order)
        dom = {i: full for i in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in order[1:]:
                s = None
                for p in preds[i]:
                    s = dom[p] if s is None else s & dom[p]
                s = (s or set()) | {i}
                if s != dom[i]:
                    dom[i] = s
                    ch = True
        return dom, order

    def find(self, rx):
        r = re.compile(rx)
        return [k for k in self.B if r.search(k)]
