"""Symbolic values, linear forms, facts.

Scalars:   ('L', c, ((sid,coef),..))  linear integer form, booleans are 0/1
Booleans:  ('C', op, L) with op in le/eq/ne : L op 0      ('AND', bs) ('OR', bs)
           ('V', L, lo, hi) : L outside [lo,hi] (overflow flag)
Others:    ('u', sid, ty) unknown    ('udc', sid, variant) unknown downcast
           ('agg', fs) ('en', v, fs) ('arr', es) ('box', v) ('vec', lenL, content)
           ('ref', base, path) ('sl', base, path, start, len) ('str', s)
           ('w', kind, inner, extra) stream wrappers / iterators   ('fn', ty)
"""
import sys
sys.setrecursionlimit(20000)

BIG = 1 << 200

_ids = {}
KEY = []
RNG = []
DEPS = []


def sym(key, rng=None, deps=()):
    i = _ids.get(key)
    if i is None:
        i = len(KEY)
        _ids[key] = i
        KEY.append(key)
        RNG.append(rng)
        d = {i}
        for x in deps:
            d |= DEPS[x]
        DEPS.append(frozenset(d))
    return i


def symexists(key):
    return _ids.get(key)


def L(c, t=()):
    return ('L', c, t)


ZERO, ONE = L(0), L(1)


def Ls(sid):
    return ('L', 0, ((sid, 1),))


def add(a, b, k=1):
    """a + k*b"""
    if not b[2]:
        return ('L', a[1] + k * b[1], a[2])
    d = dict(a[2])
    for s, c in b[2]:
        n = d.get(s, 0) + k * c
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return ('L', a[1] + k * b[1], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    return ('L', a[1] * k, tuple((s, c * k) for s, c in a[2]))


def isconst(v):
    return v is not None and v[0] == 'L' and not v[2]


def isL(v):
    return v is not None and v[0] == 'L'


def C(op, l):
    if not l[2]:
        if op == 'le':
            return ONE if l[1] <= 0 else ZERO
        if op == 'eq':
            return ONE if l[1] == 0 else ZERO
        return ONE if l[1] != 0 else ZERO
    if op in ('eq', 'ne') and l[2][0][1] < 0:
        l = scale(l, -1)
    return ('C', op, l)


def neg(b):
    k = b[0]
    if k == 'L':
        return sub(ONE, b)
    if k == 'C':
        if b[1] == 'le':
            return C('le', sub(ONE, b[2]))
        return C('ne' if b[1] == 'eq' else 'eq', b[2])
    if k == 'AND':
        return OR([neg(x) for x in b[1]])
    if k == 'OR':
        return AND([neg(x) for x in b[1]])
    if k == 'V':
        return ('NV',) + b[1:]
    if k == 'NV':
        return ('V',) + b[1:]
    raise ValueError(b)


def AND(bs):
    out = []
    for b in bs:
        if b[0] == 'AND':
            out += [x for x in b[1] if x not in out]
        elif b == ZERO:
            return ZERO
        elif b != ONE and b not in out:
            out.append(b)
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return ('AND', tuple(out))


def OR(bs):
    out = []
    for b in bs:
        if b[0] == 'OR':
            out += [x for x in b[1] if x not in out]
        elif b == ONE:
            return ONE
        elif b != ZERO and b not in out:
            out.append(b)
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return ('OR', tuple(out))


BOOLS = ('L', 'C', 'AND', 'OR', 'V', 'NV')
_vs = {}
EMPTY = frozenset()


def _basesyms(b):
    if b[0] == 'd':
        return DEPS[b[1]]
    return EMPTY


def _pathsyms(p):
    r = EMPTY
    for e in p:
        if e[0] in ('e', 'sub'):
            r = r | vsyms(e[1])
    return r


def vsyms(v):
    """closed set of symbols a value depends on"""
    if v is None:
        return EMPTY
    k = v[0]
    if k == 'L':
        if not v[2]:
            return EMPTY
        if len(v[2]) == 1:
            return DEPS[v[2][0][0]]
        r = EMPTY
        for s, _ in v[2]:
            r = r | DEPS[s]
        return r
    if k == 'u' or k == 'udc':
        return DEPS[v[1]]
    if k == 'str' or k == 'fn':
        return EMPTY
    r = _vs.get(v)
    if r is not None:
        return r
    r = EMPTY
    if k == 'C':
        r = vsyms(v[2])
    elif k in ('AND', 'OR', 'agg', 'arr'):
        for x in v[1]:
            r = r | vsyms(x)
    elif k in ('V', 'NV', 'box'):
        r = vsyms(v[1])
    elif k == 'en':
        for x in v[2]:
            r = r | vsyms(x)
    elif k == 'ref':
        r = _basesyms(v[1]) | _pathsyms(v[2])
    elif k == 'sl':
        r = _basesyms(v[1]) | _pathsyms(v[2]) | vsyms(v[3]) | vsyms(v[4])
    elif k == 'vec':
        r = vsyms(v[1]) | vsyms(v[2])
    elif k == 'w':
        r = vsyms(v[2])
        for x in v[3]:
            if isinstance(x, tuple):
                r = r | vsyms(x)
    else:
        raise ValueError(v)
    _vs[v] = r
    return r


class Fail(Exception):
    pass


def substL(l, m, bad):
    """substitute sid->L; raise Fail if a symbol depending on `bad` remains"""
    r = L(l[1])
    for s, c in l[2]:
        x = m.get(s)
        if x is not None:
            r = add(r, x, c)
        else:
            if DEPS[s] & bad:
                raise Fail()
            r = add(r, Ls(s), c)
    return r


def substB(b, m, bad):
    k = b[0]
    if k == 'L':
        return substL(b, m, bad)
    if k == 'C':
        return C(b[1], substL(b[2], m, bad))
    if k == 'AND':
        return AND([substB(x, m, bad) for x in b[1]])
    if k == 'OR':
        return OR([substB(x, m, bad) for x in b[1]])
    if k in ('V', 'NV'):
        return (k, substL(b[1], m, bad)) + b[2:]
    raise Fail()


def show(v, depth=0):
    if v is None:
        return '-'
    if depth > 6:
        return '..'
    k = v[0]
    d = depth + 1
    if k == 'L':
        ts = []
        for s, c in v[2]:
            ts.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + showsym(s, d))
        if v[1] or not ts:
            ts.append(str(v[1]))
        return '+'.join(ts).replace('+-', '-')
    if k == 'C':
        return '(%s %s 0)' % (show(v[2], d), {'le': '<=', 'eq': '==', 'ne': '!='}[v[1]])
    if k in ('AND', 'OR'):
        return '(' + (' & ' if k == 'AND' else ' | ').join(show(x, d) for x in v[1]) + ')'
    if k == 'u':
        return showsym(v[1], d)
    if k == 'en':
        return '#%d(%s)' % (v[1], ','.join(show(x, d) for x in v[2]))
    if k in ('agg', 'arr'):
        return '%s(%s)' % (k, ','.join(show(x, d) for x in v[1]))
    if k == 'str':
        return repr(v[1])
    if k == 'ref':
        return '&%s%s' % (showbase(v[1]), ''.join(showel(e, d) for e in v[2]))
    if k == 'sl':
        return '&%s%s[%s;%s]' % (showbase(v[1]), ''.join(showel(e, d) for e in v[2]), show(v[3], d), show(v[4], d))
    if k == 'w':
        return '%s<%s>' % (v[1], show(v[2], d))
    if k == 'box':
        return 'box(%s)' % show(v[1], d)
    if k == 'vec':
        return 'vec(%s,%s)' % (show(v[1], d), show(v[2], d))
    return str(v)


def showel(e, d):
    if e[0] == 'f':
        return '.%s' % e[1]
    if e[0] == 'e':
        return '[%s]' % show(e[1], d)
    if e[0] == 'sub':
        return '[%s..+%s]' % (show(e[1], d), show(e[2], d))
    return '.' + str(e[0])


def showbase(b):
    if b[0] == 'l':
        return 'l%d_%d' % (b[1], b[2])
    if b[0] == 'd':
        return '*' + showsym(b[1])
    return str(b)[:40]


def showsym(s, d=0):
    k = KEY[s]
    if d > 8:
        return 's%d' % s
    if k[0] == 'fld':
        return '%s.%s%s' % (showsym(k[1], d + 1), '' if k[2] is None else '#%d.' % k[2], k[3])
    if k[0] == '*':
        return '*' + showsym(k[1], d + 1)
    if k[0] == 'disc':
        return 'disc(%s)' % showsym(k[1], d + 1)
    if k[0] == 'arg':
        return 'arg%d' % k[1]
    if k[0] == 'app':
        return '%s(%s)' % (k[1].split('::')[-1], ','.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in k[2]))
    if k[0] == 'op':
        return '%s(%s)' % (k[1], ','.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in k[2:]))
    if k[0] == 'phi':
        return 'phi%d' % s
    return '%s' % '_'.join(str(x) for x in k)[:50]
