"""readable MIR (debugging aid): python3 pp.py mir.json path-substring"""
import json, sys


def pl(p):
    s = "_%d" % p['l']
    for e in p['p']:
        if e[0] == 'deref':
            s += '.*'
        elif e[0] == 'field':
            s += '.%s' % (e[2] or e[1])
        elif e[0] == 'index':
            s += '[_%d]' % e[1]
        else:
            s += str(e)
    return s


def op(o):
    if 'copy' in o:
        return pl(o['copy'])
    if 'move' in o:
        return 'mv ' + pl(o['move'])
    return json.dumps(o)[:150]


def any_(x):
    if isinstance(x, dict):
        if 'copy' in x or 'move' in x or 'const' in x:
            return op(x)
        if 'l' in x:
            return pl(x)
        return str(x)
    if isinstance(x, list):
        return [any_(y) for y in x]
    return x


def dump(T, b):
    print('==', b['key'], b['path'], 'argc', b['argc'], 'up', b.get('upvars'))
    for i, l in enumerate(b['locals']):
        print('  let _%d: %s' % (i, T[l[0]]['s']), l[1] if len(l) > 1 else '')
    for i, bl in enumerate(b['blocks']):
        if not bl:
            continue
        print(' bb%d' % i)
        for s in bl['s']:
            print('   ', pl(s[1]) + ' =' if s[0] == '=' else s[0], [any_(x) for x in (s[2] if s[0] == '=' else s[1:])])
        t = bl['t']
        if t[0] == 'call' and 'ptr' not in t[1]:
            print('    call', t[1].get('orig'), '=>', t[1].get('res'), 'key', t[1].get('key'),
                  [T[a]['s'] if isinstance(a, int) else a for a in t[1].get('args', [])], [op(x) for x in t[2]], '->', pl(t[3]), t[4])
        else:
            print('    ', t[0], [any_(x) for x in t[1:]])
    for q in b.get('promoted', []):
        q = dict(q, key='promoted', path='')
        dump(T, q)


if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if any(b['key'] == s or (s.endswith('*') and b['key'].startswith(s[:-1])) for s in sys.argv[2:]):
            dump(d['types'], b)
