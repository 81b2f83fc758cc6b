"""Abstract interpreter over the inlined control-flow supergraph of monomorphic MIR.

A state is a conjunction of facts over linear forms of symbols plus a memory of value trees.
States meet at join points per partition (enum tags, constant flags and rule automaton), where
differing scalars become join symbols; iteration to a fixpoint with widening.  No path is
enumerated and nothing is handed to a solver.
"""
import heapq
import math
import native
from fractions import Fraction
from values import *

INF = BIG
U64 = (0, (1 << 64) - 1)
MAXPART = 300


class Stop(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "disc", "bnd", "gh")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.disc = {}
        self.bnd = {}
        self.gh = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.disc = dict(self.disc)
        s.bnd = dict(self.bnd)
        s.gh = dict(self.gh)
        return s


class Call:
    """one call site being executed"""
    __slots__ = ("node", "fn", "callee", "path", "full", "trait", "method", "args", "argtys", "dest", "destty", "target",
                 "span", "spanfn", "selfty", "crate")


def rename(v, f):
    """apply f: L -> L to every linear form, f.u: sid->sid to unknown symbols"""
    if v is None:
        return None
    k = v[0]
    if k == 'L':
        return f.l(v)
    if k == 'str' or k == 'fn':
        return v
    if not (vsyms(v) & f.bad):
        return v
    if k == 'u':
        return ('u', f.u(v[1])) + v[2:]
    if k == 'udc':
        return ('udc', f.u(v[1])) + v[2:]
    if k == 'C':
        return C(v[1], f.l(v[2]))
    if k in ('AND', 'OR'):
        xs = [rename(x, f) for x in v[1]]
        return AND(xs) if k == 'AND' else OR(xs)
    if k in ('V', 'NV'):
        return (k, f.l(v[1])) + v[2:]
    if k in ('agg', 'arr'):
        return (k, tuple(rename(x, f) for x in v[1])) + v[2:]
    if k == 'box':
        return ('box', rename(v[1], f))
    if k == 'en':
        return ('en', v[1], tuple(rename(x, f) for x in v[2]))
    if k == 'vec':
        return ('vec', rename(v[1], f), rename(v[2], f))
    if k == 'ref':
        return ('ref', f.base(v[1]), f.path(v[2]))
    if k == 'sl':
        return ('sl', f.base(v[1]), f.path(v[2]), f.l(v[3]), f.l(v[4]))
    if k == 'w':
        return ('w', v[1], rename(v[2], f), tuple(rename(x, f) if isinstance(x, tuple) else x for x in v[3]))
    raise ValueError(v)


class Ren:
    """rename base symbols by a map sid->sid, and every symbol derived from one of them"""

    def __init__(self, m):
        self.m = m
        self.bad = frozenset(m)
        self.memo = {}

    def u(self, s):
        if not (DEPS[s] & self.bad):
            return s
        r = self.m.get(s)
        if r is not None:
            return r
        r = self.memo.get(s)
        if r is None:
            k = KEY[s]
            nk = self.key(k)
            deps = set()
            for d in DEPS[s]:
                if d != s:
                    deps.add(self.u(d))
            r = sym(nk, RNG[s], tuple(deps))
            self.memo[s] = r
            if s in AX:
                AX.setdefault(r, [substren(b, self) for b in AX[s]])
            if s in META:
                META.setdefault(r, META[s])
        return r

    def key(self, k):
        # keys of derived symbols hold symbols only in known positions
        t = k[0]
        if t in ('fld',):
            return (t, self.u(k[1])) + k[2:]
        if t in ('*', 'disc', 'len', 'kind', 'vc'):
            return (t, self.u(k[1])) + k[2:]
        if t == 'elem':
            return (t, self.val(k[1]), self.l(k[2]))
        if t in ('op',):
            return (t, k[1]) + tuple(self.val(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in k[2:])
        if t == 'app':
            return (t, k[1], tuple(self.val(x) for x in k[2])) + k[3:]
        return ('ren', t, k, tuple(sorted((a, b) for a, b in self.m.items())))

    def val(self, v):
        if isinstance(v, tuple) and v and v[0] == 'sid':
            return ('sid', self.u(v[1]))
        try:
            return rename(v, self)
        except (ValueError, TypeError):
            return v

    def l(self, v):
        if v[0] != 'L':
            return rename(v, self)
        r = None
        for s, c in v[2]:
            if DEPS[s] & self.bad:
                r = True
                break
        if r is None:
            return v
        out = L(v[1])
        for s, c in v[2]:
            out = add(out, Ls(self.u(s)), c)
        return out

    def base(self, b):
        if b[0] == 'd':
            return ('d', self.u(b[1]))
        return b

    def path(self, p):
        out = []
        for e in p:
            if e[0] == 'e':
                out.append(('e', self.l(e[1])) + e[2:])
            else:
                out.append(e)
        return tuple(out)


def substren(b, r):
    return rename(b, r)


def glo(l):
    """bounds that hold in every state"""
    return -ghi(scale(l, -1))


def ghi(l):
    r = l[1]
    for s, c in l[2]:
        a = RNG[s]
        b = (a[1] if c > 0 else a[0]) if a is not None else INF
        if abs(b) >= BIG:
            return INF
        r += c * b
    return r


AX = {}      # sid -> facts that always hold
META = {}    # sid -> free-form information for rules


def shallow(s):
    return s


class Ub:
    """one search for an upper bound: multiples of facts are subtracted until the bounds of single symbols settle it"""
    __slots__ = ("eng", "st", "target", "facts", "bnds", "memo")

    def __init__(self, eng, st, target):
        self.eng, self.st, self.target = eng, st, target
        self.bnds, self.memo = {}, {}
        ix = self.facts = {}
        for f in st.facts:
            if f[0] == 'C' and f[1] != 'ne':
                for x, c in f[2][2]:
                    ix.setdefault(x, []).append((c, f[1], f[2]))

    def of(self, l, d):
        """(symbol, its factor, comparison, form) for each fact that mentions a symbol of l"""
        ix = self.facts
        for s, _ in l[2]:
            for c, op, g in ix.get(s, ()):
                yield s, c, op, g
            for f in AX.get(s, ()):
                if f[0] == 'C':
                    for x, c in f[2][2]:
                        if x in d:
                            yield x, c, f[1], f[2]

    def hi(self, const, items):
        bn = self.bnds
        h = const
        for s, c in items:
            b = bn.get(s)
            if b is None:
                b = bn[s] = self.eng.symb(self.st, s)
            b = b[0] if c < 0 else b[1]
            if b >= INF or b <= -INF:
                return INF
            h += c * b
            if h >= INF:
                return INF
        return h

    def run(self, l, depth, best):
        key = (l, depth)
        r = self.memo.get(key)
        if r is not None:
            return r
        target = self.target
        size = len(l[2])
        room = size + 1 if depth == 3 else size
        d0 = dict(l[2])
        for s, c, op, g in self.of(l, d0):
            # l = a*s + ...; want multiplier k with a == k*c, k>0 (or any sign for eq)
            a = d0[s]
            if a % c:
                continue
            k = a // c
            if k < 0 and op != 'eq':
                continue
            d = d0.copy()
            for x, y in g[2]:
                n = d.get(x, 0) - k * y
                if n:
                    d[x] = n
                else:
                    del d[x]
            if len(d) > room:
                continue
            const = l[1] - k * g[1]
            r = self.hi(const, d.items())
            if depth > 1 and d and (target is None or r > target):
                r = self.run(('L', const, tuple(sorted(d.items()))), depth - 1, r)
            if r < best:
                best = r
                if target is not None and best <= target:
                    return best
        self.memo[key] = best
        return best


class Eng:
    def __init__(self, prog, rules, opts=None):
        self.prog = prog
        self.rules = rules
        self.thresholds = {}
        self.curfn = None
        self.eqsub = any(r.eqsub for r in rules)
        self.signed = frozenset()
        self.elemrules = [r for r in rules if r.elements]
        self.tracked = {(g,) for r in rules for g in r.tracked}
        for r in rules:
            r.eng = self
        self.opts = opts or {}
        self.frames = []          # (parent, block, fnid, chain)
        self.frameix = {}
        self.states = {}          # node -> {key: State}
        self.joins = {}           # (node,key) -> count
        self.heap = []
        self.inheap = set()
        self.keyno = {}
        self.prio = {}
        self.reporting = False
        self.reports = {}
        self.origins = {}         # φ sid -> set of linear values
        self.limit = self.opts.get("limit", 400000)
        self.steps = 0
        self.analysed = set()     # (fn path, block)
        self.opaque = set()
        self.sites = {}
        self.touch_cache = {}
        import models
        self.models = models

    # ---------------------------------------------------------------- frames
    def frame(self, parent, block, fnid):
        k = (parent, block, fnid)
        i = self.frameix.get(k)
        if i is None:
            i = len(self.frames)
            chain = (fnid,) if parent is None else self.frames[parent][3] + (fnid,)
            fn = self.prog.fn(fnid)
            pr = () if parent is None else self.frames[parent][4] + (self.prog.fn(self.frames[parent][2]).rpo[block],)
            self.frames.append((parent, block, fnid, chain, pr))
            self.frameix[k] = i
        return i

    def fnof(self, fr):
        return self.prog.fn(self.frames[fr][2])

    def priority(self, node):
        p = self.prio.get(node)
        if p is None:
            fr, b = node
            p = self.frames[fr][4] + (self.fnof(fr).rpo.get(b, 0),)
            self.prio[node] = p
        return p

    # ---------------------------------------------------------------- types
    def tk(self, t):
        return self.prog.ty(t).get("k")

    def intrange(self, t):
        ty = self.prog.ty(t)
        k = ty.get("k")
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10ffff)
        if k == "uint":
            return (0, (1 << ty["bits"]) - 1)
        if k == "int":
            return (-(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1)
        return None

    def place_ty(self, fn, place):
        t = fn.locals[place[0]]
        for e in place[1]:
            if e == "*":
                ty = self.prog.ty(t)
                t = ty.get("e", -1) if ty.get("k") in ("ref", "ptr") else (ty.get("args") or [-1])[0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = self.prog.ty(t).get("e", -1)
            elif e[0] == "o":
                t = e[1]
        return t

    # ---------------------------------------------------------------- unknown values
    def unk(self, key, ty, deps=()):
        """unknown value of a type, named by key"""
        if ty is not None and ty >= 0:
            t = self.prog.ty(ty)
            r = self.intrange(ty)
            if r is not None:
                return Ls(sym(key, r, deps))
            if t.get("k") == "tuple" and not t["f"]:
                return ('agg', ())
        return ('u', sym(key, None, deps), ty)

    def fresh(self, st, node, tag, ty):
        """value produced by an effect at this node; older values of the same name are renamed first"""
        key = ('site', node, tag)
        s = symexists(key)
        if s is not None:
            self.kill(st, {s}, node)
        v = self.unk(key, ty)
        return v

    def freshsym(self, st, node, tag, rng=None):
        key = ('site', node, tag)
        s = symexists(key)
        if s is not None:
            self.kill(st, {s}, node)
        return sym(key, rng)

    def kill(self, st, bad, node):
        bad = set(bad)
        used = {}
        found = False
        for b, v in st.mem.items():
            sv = vsyms(v)
            if b[0] == 'd':
                sv = sv | DEPS[b[1]]
            if sv & bad:
                found = True
                break
        if not found:
            for f in list(st.facts):
                if vsyms(f) & bad:
                    del st.facts[f]
            for d in [d for d in st.disc if DEPS[d] & bad]:
                del st.disc[d]
            return
        pool = set(bad)
        for b, v in st.mem.items():
            for s in vsyms(v):
                k = KEY[s]
                if k[0] == 'kl' and k[1] == node:
                    pool.add(s)
        m = {}
        n = 0
        for b, v in st.mem.items():
            for s in sorted(vsyms(v)):
                if s in pool and s not in m:
                    m[s] = (b, len([1 for x in m.values() if x[0] == b]))
        mm = {}
        for s, loc in m.items():
            t = sym(('kl', node, loc), RNG[s])
            mm[s] = t
            self.origins.setdefault(t, set()).add(Ls(s))
            if s in META:
                META.setdefault(t, META[s])
        self.renstate(st, mm, drop=pool - set(m))

    def renstate(self, st, mm, drop=()):
        mm = {a: b for a, b in mm.items()}
        r = Ren(mm)
        bad = r.bad
        drop = frozenset(drop)
        mem = {}
        for b, v in st.mem.items():
            if b[0] == 'd' and DEPS[b[1]] & drop:
                continue
            mem[r.base(b)] = rename(v, r) if v is not None else None
        st.mem = mem
        facts = {}
        for f in st.facts:
            if vsyms(f) & drop:
                continue
            f = rename(f, r)
            if f != ONE:
                facts[f] = None
        st.facts = facts
        st.disc = {r.u(d): v for d, v in st.disc.items() if not DEPS[d] & drop}
        st.bnd = {mm.get(d, d): v for d, v in st.bnd.items()}
        gh = {}
        for k, v in st.gh.items():
            gh[k] = self.rengh(v, r)
        st.gh = gh

    def rengh(self, v, r):
        if isinstance(v, tuple) and v and v[0] == 'sid':
            return ('sid', r.u(v[1]))
        return v

    # ---------------------------------------------------------------- memory
    def base_default(self, base):
        if base[0] == 'd':
            s = base[1]
            m = META.get(s) or {}
            return ('u', sym(('*', s), None, (s,)), m.get('pt', -1))
        if base[0] == 'k':
            return self.consts[base[1]]
        if base[0] == 'g' and base[1] == 'pos':
            return Ls(sym(('pos0', base[2]), (0, (1 << 64) - 1)))
        return None

    def load(self, st, base, path):
        v = st.mem.get(base)
        if v is None and base not in st.mem:
            v = self.base_default(base)
        for e in path:
            v = self.project(st, v, e)
            if v is None:
                return None
        return self.norm(st, v)

    def norm(self, st, v):
        if v is not None and v[0] == 'u':
            d = st.disc.get(v[1])
            if d is not None:
                return self.expand_variant(v, d)
        return v

    def mkfield(self, sid, variant, i, ty):
        return self.unk2(('fld', sid, variant, i), ty, (sid,))

    def unk2(self, key, ty, deps):
        v = self.unk(key, ty, deps)
        if v[0] == 'u' and ty is not None and ty >= 0:
            t = self.prog.ty(ty)
            if t.get('k') in ('ref', 'ptr'):
                META.setdefault(v[1], {'pt': t.get('e', -1)})
        return v

    def expand_variant(self, v, vi):
        t = self.prog.ty(v[2])
        vs = t.get("v")
        if not vs:
            return v
        fs = vs[vi]["f"]
        return ('en', vi, tuple(self.mkfield(v[1], vi, i, f["t"]) for i, f in enumerate(fs)))

    def expand(self, v):
        """unknown struct/tuple/closure -> aggregate of unknown fields"""
        t = self.prog.ty(v[2])
        k = t.get("k")
        if k == "tuple" or k == "closure":
            return ('agg', tuple(self.mkfield(v[1], None, i, f) for i, f in enumerate(t["f"])))
        if k == "adt" and t.get("kind") == "struct" and t.get("v"):
            return ('agg', tuple(self.mkfield(v[1], None, i, f["t"]) for i, f in enumerate(t["v"][0]["f"])))
        if k == "array" and t["n"] <= 64:
            return ('arr', tuple(self.elem(v, L(i), t["e"]) for i in range(t["n"])))
        return None

    def elem(self, v, ix, ty=None):
        if ty is None and v[0] == 'u':
            t = self.prog.ty(v[2])
            ty = t.get('e', -1)
        deps = set(vsyms(v)) | set(vsyms(ix))
        return self.unk2(('elem', v[:2] if v[0] == 'u' else v, ix), ty, tuple(deps))

    def project(self, st, v, e):
        if v is None:
            return None
        k = v[0]
        if k == 'u':
            v = self.norm(st, v)
            k = v[0]
        t = e[0]
        if t == 'f':
            i = e[1]
            if k in ('agg',):
                return v[1][i] if i < len(v[1]) else None
            if k == 'u':
                return self.mkfield(v[1], None, i, e[2])
            if k == 'udc':
                return self.mkfield(v[1], v[2], i, e[2])
            if k == 'en' and len(v[2]) > i:
                return v[2][i]
            if k == 'box' or k == 'w' or k == 'vec' or k == 'str':
                return self.unk2(('op', 'fldof', v, i), e[2], tuple(vsyms(v)))
            return None
        if t == 'v':
            if k == 'en':
                return ('agg', v[2]) if v[1] == e[1] else None
            if k == 'u':
                return ('udc', v[1], e[1])
            return v
        if t == 'e':
            ix = e[1]
            if k == 'vec':
                v = v[2]
                if v is None:
                    return None
                k = v[0]
            if k == 'arr':
                es = v[1]
                if isconst(ix):
                    return es[ix[1]] if 0 <= ix[1] < len(es) else None
                if es and all(x is not None and x == es[0] for x in es):
                    return es[0]
                if es and all(isconst(x) for x in es):
                    lo, hi = self.bounds(st, ix)
                    sub_ = es[max(0, lo):hi + 1] or es
                    cs = [x[1] for x in sub_]
                    return Ls(sym(('op', 'elem', v, ix), (min(x[1] for x in es), max(x[1] for x in es)), tuple(vsyms(ix))))
                return self.unk2(('op', 'elem', v, ix), e[2] if len(e) > 2 else -1, tuple(vsyms(v) | vsyms(ix)))
            if k == 'u':
                return self.elem(v, ix, e[2] if len(e) > 2 else None)
            if k == 'str' and isconst(ix):
                b = v[1].encode()
                return L(b[ix[1]]) if ix[1] < len(b) else None
            return None
        if t == 'b':
            if k == 'box':
                return v[1]
            if k == 'u':
                return self.unk2(('*', v[1]), e[1], (v[1],))
            return None
        return None

    def store(self, st, node, base, path, val, tag):
        if not path:
            st.mem[base] = val
            return
        cur = st.mem.get(base)
        if cur is None and base not in st.mem:
            cur = self.base_default(base)
        st.mem[base] = self.setin(st, node, cur, path, val, tag)

    def setin(self, st, node, v, path, val, tag):
        if not path:
            return val
        e = path[0]
        if v is not None and v[0] == 'u':
            v = self.norm(st, v)
        k = v[0] if v is not None else None
        if e[0] == 'f':
            if k == 'u':
                x = self.expand(v)
                if x is None:
                    return self.havocval(st, node, v, tag)
                v, k = x, 'agg'
            if k == 'agg':
                fs = list(v[1])
                while len(fs) <= e[1]:
                    fs.append(None)
                fs[e[1]] = self.setin(st, node, fs[e[1]], path[1:], val, tag)
                return ('agg', tuple(fs)) + v[2:]
            if k is None:
                fs = [None] * (e[1] + 1)
                fs[e[1]] = self.setin(st, node, None, path[1:], val, tag)
                return ('agg', tuple(fs))
            return self.havocval(st, node, v, tag)
        if e[0] == 'v':
            if k == 'en' and v[1] == e[1] and len(path) > 1 and path[1][0] == 'f':
                fs = list(v[2])
                i = path[1][1]
                while len(fs) <= i:
                    fs.append(None)
                fs[i] = self.setin(st, node, fs[i], path[2:], val, tag)
                return ('en', v[1], tuple(fs))
            if k == 'u':
                x = self.expand_variant(v, e[1])
                if x[0] == 'en':
                    return self.setin(st, node, x, path, val, tag)
            return self.havocval(st, node, v, tag)
        if e[0] == 'e':
            if k == 'vec':
                return ('vec', v[1], self.setin(st, node, v[2], path, val, tag))
            if k == 'u':
                x = self.expand(v)
                if x is not None and x[0] == 'arr':
                    v, k = x, 'arr'
            if k == 'arr' and isconst(e[1]) and 0 <= e[1][1] < len(v[1]):
                es = list(v[1])
                es[e[1][1]] = self.setin(st, node, es[e[1][1]], path[1:], val, tag)
                return ('arr', tuple(es))
            return self.havocval(st, node, v, tag)
        if e[0] == 'b' and k == 'box':
            return ('box', self.setin(st, node, v[1], path[1:], val, tag))
        return self.havocval(st, node, v, tag)

    def havocval(self, st, node, v, tag):
        ty = v[2] if v is not None and v[0] == 'u' else -1
        s = self.freshsym(st, node, ('st', tag))
        return ('u', s, ty)

    # ---------------------------------------------------------------- places
    def place(self, st, fr, fn, place):
        """-> ('P', base, path) | ('S', slice/str value) | None"""
        base, path = ('l', fr, place[0]), ()
        sl = None
        t = fn.locals[place[0]]
        for e in place[1]:
            if e == "*":
                ty = self.prog.ty(t)
                if ty.get("k") not in ("ref", "ptr"):
                    # Box
                    t = (ty.get("args") or [-1])[0]
                    path = path + (('b', t),)
                    continue
                t = ty.get("e", -1)
                v = ('S', sl)[1] if sl is not None else self.load(st, base, path)
                sl = None
                if v is None:
                    return None
                if v[0] == 'ref':
                    base, path = v[1], v[2]
                elif v[0] in ('sl', 'str'):
                    sl = v
                elif v[0] == 'u':
                    META.setdefault(v[1], {'pt': t})
                    if self.tk(t) in ("slice", "str", "dyn"):
                        # unknown slice: symbolic length
                        n = Ls(sym(('len', v[1]), (0, (1 << 63) - 1), (v[1],)))
                        if self.tk(t) == "slice":
                            META.setdefault(v[1], {'pt': t})
                            sl = ('sl', ('d', v[1]), (), ZERO, n)
                        else:
                            sl = v
                    else:
                        base, path = ('d', v[1]), ()
                else:
                    return None
            elif e[0] == "f":
                path = path + (('f', e[1], e[2]),)
                t = e[2]
            elif e[0] == "d":
                path = path + (('v', e[1]),)
            elif e[0] == "i":
                ix = self.load(st, ('l', fr, e[1]), ())
                if ix is None or ix[0] != 'L':
                    return None
                et = self.prog.ty(t).get("e", -1)
                if sl is not None:
                    if sl[0] != 'sl':
                        return None
                    base, path = sl[1], sl[2] + (('e', add(sl[3], ix), et),)
                    sl = None
                else:
                    path = path + (('e', ix, et),)
                t = et
            elif e[0] == "c":
                et = self.prog.ty(t).get("e", -1)
                off = L(e[1])
                if sl is not None:
                    if sl[0] != 'sl':
                        return None
                    if e[3]:
                        off = add(sl[4], off, -1)
                    base, path = sl[1], sl[2] + (('e', add(sl[3], off), et),)
                    sl = None
                else:
                    if e[3]:
                        off = L(self.prog.ty(t).get("n", 0) - e[1])
                    path = path + (('e', off, et),)
                t = et
            elif e[0] == "s":
                if sl is not None and sl[0] == 'sl':
                    n = sub(sl[4], L(e[1] + e[2])) if e[3] else L(e[2] - e[1])
                    sl = ('sl', sl[1], sl[2], add(sl[3], L(e[1])), n)
                else:
                    return None
            elif e[0] == "o":
                t = e[1]
            else:
                return None
        if sl is not None:
            return ('S', sl)
        return ('P', base, path)

    # ---------------------------------------------------------------- operands
    consts = {}

    def const(self, c):
        k = c["k"]
        if k == "int":
            return L(c["v"])
        if k == "str":
            return ('str', c["v"])
        if k == "refto":
            v = self.const(c["v"])
            cid = ('k', v)
            self.consts[v] = v
            if v is None:
                return ('u', sym(('const', id(c))), c["t"])
            t = self.prog.ty(c["t"])
            if v[0] == 'arr' and self.tk(t.get("e", -1)) == "slice":
                return ('sl', cid, (), ZERO, L(len(v[1])))
            return ('ref', cid, ())
        if k == "slice":
            vs = tuple(self.const(x) if isinstance(x, dict) else L(x) for x in c["v"])
            v = ('arr', vs)
            self.consts[v] = v
            return ('sl', ('k', v), (), ZERO, L(len(vs)))
        if k == "agg":
            t = self.prog.ty(c["t"])
            vs = tuple(self.const(x) for x in c["v"])
            if t.get("k") == "array":
                return ('arr', vs)
            if t.get("k") == "adt" and t.get("kind") == "enum":
                return ('en', c.get("vi", 0), vs)
            return ('agg', vs)
        if k == "static":
            return ('u', sym(('static', str(c.get("v")))), c["t"])
        if k == "fn":
            return ('fn', c["t"])
        t = self.prog.ty(c["t"])
        if t.get("k") in ("fndef", "closure"):
            return ('fn', c["t"])
        return ('u', sym(('constt', str(c.get("name") or ""), c["t"], str(c.get("v"))[:200])), c["t"])

    def operand(self, st, fr, fn, o):
        k = o[0]
        if k in ("cp", "mv"):
            p = self.place(st, fr, fn, o[1])
            if p is None:
                return None
            if p[0] == 'S':
                return p[1]
            v = self.load(st, p[1], p[2])
            if self.elemrules and p[2] and p[2][-1][0] == 'e':
                for r in self.elemrules:
                    v = r.on_load(st, self.curnode, p[1], p[2], self.place_ty(fn, o[1]), v)
            if v is None:
                t = self.place_ty(fn, o[1])
                ty = self.prog.ty(t)
                if ty.get("k") == "tuple" and not ty["f"]:
                    return ('agg', ())
            return v
        if k == "k":
            return self.const(o[1])
        if k == "rt":
            return ONE if o[1] == "OverflowChecks" else ZERO
        return None

    # ---------------------------------------------------------------- arithmetic
    def boolean(self, v):
        return v is not None and v[0] in BOOLS

    def inrange(self, st, l, rng):
        if rng is None:
            return False
        if isconst(l):
            return rng[0] <= l[1] <= rng[1]
        lo, hi = self.quick(st, l)
        if lo >= rng[0] and hi <= rng[1]:
            return True
        return self.entails(st, C('le', sub(l, L(rng[1])))) and self.entails(st, C('le', sub(L(rng[0]), l)))

    def opsym(self, name, *xs, rng=None):
        deps = EMPTY
        for x in xs:
            if isinstance(x, tuple):
                deps = deps | vsyms(x)
        return Ls(sym(('op', name) + xs, rng, tuple(deps)))

    def div(self, st, x, c):
        """floor division of a non-negative linear form by a positive constant"""
        if isconst(x):
            return L(x[1] // c)
        if c == 1:
            return x
        if x[1] % c == 0 and all(k % c == 0 for _, k in x[2]):
            return L(x[1] // c, tuple((s, k // c) for s, k in x[2]))
        # (c*a + b) / c == a + b/c, whatever the sign of a
        whole = L(x[1] // c * c, tuple((s, k // c * c) for s, k in x[2] if k // c))
        rest = sub(x, whole)
        if (whole[1] or whole[2]) and glo(rest) >= 0:
            return add(L(whole[1] // c, tuple((s, k // c) for s, k in whole[2])), self.div(st, rest, c))
        if len(x[2]) == 1 and x[1] == 0 and x[2][0][1] == 1:
            k = KEY[x[2][0][0]]
            if k[0] == 'op' and k[1] == 'Div' and isinstance(k[3], int):
                return self.div(st, k[2], c * k[3])
        hi = ghi(x)
        if hi < c and glo(x) >= 0:
            return ZERO
        s = sym(('op', 'Div', x, c), (0, hi // c if hi < BIG else INF), tuple(vsyms(x)))
        if s not in AX:
            q = Ls(s)
            AX[s] = [C('le', sub(scale(q, c), x)), C('le', sub(x, add(scale(q, c), L(c - 1))))]
        return Ls(s)

    def mod(self, st, x, c):
        return sub(x, scale(self.div(st, x, c), c))

    def binop(self, st, op, a, b, ty, fn):
        if a is None or b is None:
            return None
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[:-12]
        unc = op.endswith("Unchecked")
        if unc:
            op = op[:-9]
        rng = self.intrange(ty if not wo else None) if ty is not None else None
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == 'L' and b[0] == 'L':
                d = sub(a, b)
                if op == "Eq":
                    return C('eq', d)
                if op == "Ne":
                    return C('ne', d)
                if op == "Lt":
                    return C('le', add(d, ONE))
                if op == "Le":
                    return C('le', d)
                if op == "Gt":
                    return C('le', sub(ONE, d))
                return C('le', scale(d, -1))
            if self.boolean(a) and self.boolean(b):
                if op in ("Eq", "Ne"):
                    for x, y in ((a, b), (b, a)):
                        if isconst(x):
                            r = y if x[1] == 1 else neg(y)
                            return r if op == "Eq" else neg(r)
                if op == "Gt" and b == ZERO:
                    return a
                if op == "Lt" and a == ZERO:
                    return b
                if op == "Ge" and b == ONE:
                    return a
            return self.opsym(op, a, b, rng=(0, 1))
        if op in ("Add", "Sub", "Mul"):
            r = None
            if a[0] == 'L' and b[0] == 'L':
                if op == "Add":
                    r = add(a, b)
                elif op == "Sub":
                    r = sub(a, b)
                elif isconst(b):
                    r = scale(a, b[1])
                elif isconst(a):
                    r = scale(b, a[1])
                else:
                    x, y = sorted((a, b))
                    la, ha = self.bounds(st, a)
                    lb, hb = self.bounds(st, b)
                    lo = la * lb if la >= 0 and lb >= 0 else -INF
                    r = self.opsym("Mul", x, y, rng=(lo, INF))
            if wo:
                rr = self.intrange(self.prog.ty(ty)["f"][0])
                if r is None:
                    r = self.opsym(op, a, b, rng=rr)
                    return ('agg', (r, self.opsym(op + "?", a, b, rng=(0, 1))))
                if self.inrange(st, r, rr):
                    return ('agg', (r, ZERO))
                return ('agg', (r, ('V', r, rr[0], rr[1])))
            if r is None:
                return self.opsym(op, a, b, rng=rng)
            if rng is None or self.inrange(st, r, rng) or unc:
                return r
            return self.opsym("wrap" + op, a, b, rng=rng)
        if a[0] == 'L' and b[0] == 'L' and isconst(a) and isconst(b) and rng is not None:
            x, y = a[1], b[1]
            w = None
            if op == "BitAnd":
                w = x & y
            elif op == "BitOr":
                w = x | y
            elif op == "BitXor":
                w = x ^ y
            elif op == "Shl":
                w = x << (y & 127)
            elif op == "Shr":
                w = x >> (y & 127)
            elif op == "Div" and y:
                w = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == "Rem" and y:
                w = abs(x) % abs(y) * (1 if x >= 0 else -1)
            if w is not None:
                n = rng[1] - rng[0] + 1
                return L((w - rng[0]) % n + rng[0])
        if self.tk(ty) == "bool" or (self.boolean(a) and self.boolean(b) and rng == (0, 1)):
            if op == "BitAnd":
                return AND([a, b])
            if op == "BitOr":
                return OR([a, b])
            if op == "BitXor":
                if isconst(b):
                    return neg(a) if b[1] else a
                if isconst(a):
                    return neg(b) if a[1] else b
            return self.opsym(op, a, b, rng=(0, 1))
        if a[0] == 'L' and b[0] == 'L' and rng is not None:
            nonneg = rng[0] >= 0 or self.bounds(st, a)[0] >= 0
            if isconst(b) and nonneg:
                c = b[1]
                if op == "Div" and c > 0:
                    return self.div(st, a, c)
                if op == "Rem" and c > 0:
                    return self.mod(st, a, c)
                if op == "Shr" and 0 <= c < 128:
                    return self.div(st, a, 1 << c)
                if op == "Shl" and 0 <= c < 128:
                    r = scale(a, 1 << c)
                    if self.inrange(st, r, rng):
                        return r
                if op == "BitAnd" and c >= 0 and (c & (c + 1)) == 0:
                    if self.entails(st, C('le', sub(a, L(c)))):
                        return a
                    return self.mod(st, a, c + 1)
                low = c & -c if c > 0 else 0
                if op == "BitAnd" and low and ((c + low) & c) == 0:
                    return scale(self.mod(st, self.div(st, a, low), c // low + 1), low)
            if op in ("BitOr", "BitXor") and nonneg and rng[0] >= 0:
                # no bit in common: the same as a sum
                for x, y in ((a, b), (b, a)):
                    g = x[1]
                    for _, k in x[2]:
                        g |= k
                    low = g & -g
                    if low > 1 and self.bounds(st, y)[0] >= 0 and self.bounds(st, y)[1] < low:
                        return add(x, y)
            if op == "BitAnd":
                hi = min(self.bounds(st, a)[1] if nonneg else INF, self.bounds(st, b)[1] if self.bounds(st, b)[0] >= 0 else INF)
                x, y = sorted((a, b))
                return self.opsym(op, x, y, rng=(0, hi) if nonneg else rng)
            if op in ("BitOr", "BitXor"):
                x, y = sorted((a, b))
                if x == ZERO:
                    return y
                h = max(self.bounds(st, a)[1], self.bounds(st, b)[1])
                r2 = rng
                if nonneg and h < (1 << 64) and rng[0] >= 0:
                    r2 = (0, min(rng[1], (1 << max(1, h.bit_length())) - 1))
                return self.opsym(op, x, y, rng=r2)
            r = self.opsym(op, a, b, self.prog.tystr(ty), rng=rng)
            if op == "Rem" and rng[0] == 0 and self.elemrules:
                AX.setdefault(r[2][0][0], [C('le', add(sub(r, b), ONE))])
            return r
        return self.unkop(op, (a, b), ty)

    def unkop(self, op, xs, ty):
        deps = EMPTY
        for x in xs:
            deps = deps | vsyms(x)
        return self.unk2(('op', op) + tuple(xs), ty, tuple(deps))

    def cast(self, st, kind, v, ty, srcty):
        if v is None:
            return None
        if kind.startswith("PointerCoercion(Unsize"):
            if v[0] == 'ref':
                t = self.prog.ty(ty)
                if self.tk(t.get("e", -1)) == "slice":
                    st_ = self.prog.ty(srcty)
                    n = self.prog.ty(st_.get("e", -1)).get("n")
                    if n is not None:
                        return ('sl', v[1], v[2], ZERO, L(n))
            if v[0] == 'u':
                t = self.prog.ty(ty)
                st_ = self.prog.ty(srcty)
                n = self.prog.ty(st_.get("e", -1)).get("n")
                if self.tk(t.get("e", -1)) == "slice" and n is not None:
                    META.setdefault(v[1], {'pt': st_.get("e", -1)})
                    return ('sl', ('d', v[1]), (), ZERO, L(n))
            return v
        if kind == "IntToInt":
            rng = self.intrange(ty)
            if v[0] != 'L':
                return v           # boolean expression used as 0/1
            if rng is None:
                return v
            if self.inrange(st, v, rng):
                return v
            if isconst(v):
                n = rng[1] - rng[0] + 1
                return L((v[1] - rng[0]) % n + rng[0])
            if rng[0] == 0 and self.quick(st, v)[0] >= 0:
                return self.mod(st, v, rng[1] + 1)
            return self.opsym("cast", v, self.prog.tystr(ty), rng=rng)
        if kind in ("Transmute", "PtrToPtr", "FnPtrToPtr") or kind.startswith("PointerCoercion"):
            if self.intrange(ty) is not None:
                if v[0] == 'L' and self.inrange(st, v, self.intrange(ty)):
                    return v
                return self.unkop("cast", (v,), ty)
            if v[0] in ('ref', 'sl', 'str', 'fn', 'box', 'w'):
                return v
            if v[0] == 'u':
                return ('u', v[1], ty) if self.prog.ty(ty).get("k") in ("ref", "ptr", "adt") else self.unkop("cast", (v,), ty)
            if v[0] == 'agg' and len(v[1]) == 1:
                return v[1][0]
            return v
        return self.unkop("cast:" + kind[:20], (v,), ty)

    # ---------------------------------------------------------------- bounds / entailment
    def symb(self, st, s):
        r = RNG[s]
        b = st.bnd.get(s)
        if r is None:
            return b or (-INF, INF)
        if b is None:
            return r
        return (max(r[0], b[0]), min(r[1], b[1]))

    def quick(self, st, l):
        lo = hi = l[1]
        for s, c in l[2]:
            a, b = self.symb(st, s)
            if c < 0:
                a, b = b, a
            lo = lo + c * a if abs(a) < INF and lo > -INF else -INF
            hi = hi + c * b if abs(b) < INF and hi < INF else INF
        return lo, hi

    def bounds(self, st, l):
        if l[0] != 'L':
            return (0, 1)
        if isconst(l):
            return (l[1], l[1])
        return (-self.ub(st, scale(l, -1)), self.ub(st, l))

    def ub(self, st, l, depth=3, target=None):
        """an upper bound of l; the search may stop at one that is at most the target"""
        best = self.quick(st, l)[1]
        if target is not None and best <= target or depth == 0 or not l[2]:
            return best
        r = None
        if native.LIB is not None and (len(st.facts) > 40 or self.frozen is st):
            if self.given is not st:
                native.give(self, st, self.pool if self.frozen is st else [s for s, _ in l[2]], AX)
                self.given = st if self.frozen is st else None
            r = native.find(l, depth, best, target)
        best = Ub(self, st, target).run(l, depth, best) if r is None else min(r, best)
        if target is not None and best <= target:
            return best
        if depth == 3 and target is not None:
            # integer rounding: a quotient is bounded through its multiple
            for s, a in l[2]:
                k = KEY[s]
                if k[0] == 'op' and k[1] == 'Div' and isinstance(k[3], int) and k[3] > 1 and abs(a) < k[3]:
                    c = k[3]
                    q = L(0, ((s, c if a > 0 else -c),))
                    r = self.ub(st, q, 3)
                    if r >= BIG or r // c >= self.quick(st, L(0, ((s, 1 if a > 0 else -1),)))[1]:
                        continue
                    n = add(sub(l, L(0, ((s, a),))), L(abs(a) * (r // c)))
                    r = self.ub(st, n, 2, target)
                    if r < best:
                        best = r
        return best

    def entails(self, st, b):
        k = b[0]
        if k == 'L':
            if not b[2]:
                return b[1] != 0
            if C('eq', sub(b, ONE)) in st.facts:
                return True
            return self.bounds(st, b)[0] >= 1
        if b in st.facts:
            return True
        if k == 'C':
            l = b[2]
            if b[1] == 'le':
                return self.ub(st, l, target=0) <= 0
            if b[1] == 'eq':
                return self.ub(st, l, target=0) <= 0 and self.ub(st, scale(l, -1), target=0) <= 0
            return self.ub(st, l, target=-1) < 0 or self.ub(st, scale(l, -1), target=-1) < 0
        if k == 'AND':
            return all(self.entails(st, x) for x in b[1])
        if k == 'OR':
            return any(self.entails(st, x) for x in b[1])
        if k == 'V':
            return self.entails(st, C('le', sub(L(b[3] + 1), b[1]))) or self.entails(st, C('le', sub(b[1], L(b[2] - 1))))
        if k == 'NV':
            return self.entails(st, C('le', sub(b[1], L(b[3])))) and self.entails(st, C('le', sub(L(b[2]), b[1])))
        return False

    def assume(self, st, b, hook=True):
        """-> False if contradictory; adds facts"""
        k = b[0]
        if hook:
            for r in self.rules:
                r.on_assume(st, b)
        if k == 'L':
            if not b[2]:
                return b[1] != 0
            b = C('ne', b) if self.quick(st, b) != (0, 1) else C('eq', sub(b, ONE))
            k = b[0]
            if k == 'L':
                return b[1] != 0
        if k == 'C':
            if hook and b[1] == 'le' and len(b[2][2]) == 1 and self.curfn is not None:
                c = -b[2][1] // b[2][2][0][1]
                if 1 < c < 1 << 16:
                    self.thresholds.setdefault(self.curfn, set()).update((c, c + 1))
            if self.entails(st, b):
                return True
            if self.entails(st, neg(b)):
                return False
            st.facts[b] = None
            if b[1] == 'eq' and len(b[2][2]) == 1:
                self.const_disc(st, b[2])
            if b[1] != 'ne' and len(b[2][2]) == 1:
                # a bound on a quotient bounds what was divided
                (s, c), = b[2][2]
                k = KEY[s]
                if k[0] == 'op' and k[1] == 'Div' and isinstance(k[3], int):
                    if c > 0:
                        self.assume(st, C('le', sub(k[2], L(-b[2][1] // c * k[3] + k[3] - 1))), False)
                    if c < 0 or b[1] == 'eq':
                        m = -(b[2][1] // c) if c > 0 else -(-b[2][1] // -c)
                        self.assume(st, C('le', sub(L(m * k[3]), k[2])), False)
            if b[1] != 'ne' and 1 < len(b[2][2]) <= 4:
                # what the inequality says about each symbol alone
                for s, c in b[2][2]:
                    if abs(c) != 1:
                        continue
                    rest = self.quick(st, sub(b[2], L(0, ((s, c),))))
                    lo, hi = self.symb(st, s)
                    nl, nh = lo, hi
                    if c == 1:
                        nh = min(nh, -rest[0])
                        if b[1] == 'eq':
                            nl = max(nl, -rest[1])
                    else:
                        nl = max(nl, rest[0])
                        if b[1] == 'eq':
                            nh = min(nh, rest[1])
                    if (nl, nh) != (lo, hi) and abs(nl) < BIG and nl <= nh:
                        st.bnd[s] = (nl, nh)
            if self.eqsub and b[1] != 'ne' and len(b[2][2]) > 1 and (b[1] == 'eq' or self.entails(st, C('le', scale(b[2], -1)))):
                self.equate(st, b[2])
            # refine a disequality at a bound
            if b[1] == 'ne':
                lo, hi = self.bounds(st, b[2])
                if lo == 0:
                    st.facts[C('le', sub(ONE, b[2]))] = None
                elif hi == 0:
                    st.facts[C('le', add(b[2], ONE))] = None
            self.recheck(st)
            return True
        if k == 'AND':
            return all(self.assume(st, x, False) for x in b[1])
        if k == 'OR':
            xs = [x for x in b[1] if not self.entails(st, neg(x))]
            if not xs:
                return False
            if len(xs) == 1:
                return self.assume(st, xs[0], False)
            if not any(self.entails(st, x) for x in xs):
                st.facts[OR(xs)] = None
            return True
        if k == 'NV':
            return self.assume(st, C('le', sub(b[1], L(b[3]))), False) and self.assume(st, C('le', sub(L(b[2]), b[1])), False)
        if k == 'V':
            return self.assume(st, OR([C('le', sub(L(b[3] + 1), b[1])), C('le', sub(b[1], L(b[2] - 1)))]), False)
        return True

    def equate(self, st, l, which=None):
        """l is zero: write values without one of its symbols (facts about that symbol stay)"""
        cand = [(True, s, c) for s, c in l[2] if s == which and abs(c) == 1] if which is not None else [(KEY[s][0] == 'phi', s, c) for s, c in l[2] if abs(c) == 1 and KEY[s][0] in ('phi', 'kl', 'site')]
        if not cand:
            return
        _, s, c = max(cand)
        by = scale(sub(l, L(0, ((s, c),))), -c)

        def rw(v):
            if v is None or not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k == 'L':
                for x, n in v[2]:
                    if x == s:
                        return add(sub(v, L(0, ((s, n),))), scale(by, n))
                return v
            if k in ('agg', 'arr'):
                return (k, tuple(rw(x) for x in v[1])) + v[2:]
            if k == 'en':
                return ('en', v[1], tuple(rw(x) for x in v[2]))
            return v
        for b, v in st.mem.items():
            if v is not None and s in vsyms(v):
                st.mem[b] = rw(v)

    def recheck(self, st):
        for f in list(st.facts):
            if f[0] == 'OR':
                xs = [x for x in f[1] if not self.entails(st, neg(x))]
                if len(xs) == 1:
                    del st.facts[f]
                    self.assume(st, xs[0], False)

    def const_disc(self, st, l):
        """fact  disc(u) == value: remember the variant"""
        s, c = l[2][0]
        k = KEY[s]
        if k[0] != 'disc':
            return
        val = -l[1] // c
        ty = self.prog.ty(k[2])
        for i, v in enumerate(ty.get("v") or ()):
            if v["d"] == val:
                self.setdisc(st, k[1], i, k[2])
                return

    def setdisc(self, st, sid, vi, ty):
        st.disc[sid] = vi
        # substitute stored copies
        target = None
        for b, v in list(st.mem.items()):
            if v is not None and v[0] != 'L' and sid in vsyms(v):
                n = self.subst_u(v, sid, vi)
                if n is not v:
                    st.mem[b] = n

    def subst_u(self, v, sid, vi):
        if v is None:
            return None
        k = v[0]
        if k == 'u':
            if v[1] == sid:
                return self.expand_variant(v, vi)
            return v
        if k in ('agg', 'arr'):
            xs = tuple(self.subst_u(x, sid, vi) for x in v[1])
            return (k, xs) + v[2:] if xs != v[1] else v
        if k == 'en':
            xs = tuple(self.subst_u(x, sid, vi) for x in v[2])
            return ('en', v[1], xs) if xs != v[2] else v
        if k == 'box':
            x = self.subst_u(v[1], sid, vi)
            return ('box', x) if x != v[1] else v
        return v

    def disc_of(self, st, v, ty):
        if v is None:
            return None
        v = self.norm(st, v)
        t = self.prog.ty(ty)
        if v[0] == 'en':
            vs = t.get("v")
            d = vs[v[1]]["d"] if vs and v[1] < len(vs) else v[1]
            return L(d if d is not None else v[1])
        if v[0] == 'u':
            vs = t.get("v") or ()
            ds = [x["d"] for x in vs if x["d"] is not None]
            rng = (min(ds), max(ds)) if ds else None
            tt = v[2] if v[2] is not None and v[2] >= 0 else ty
            return Ls(sym(('disc', v[1], tt), rng, (v[1],)))
        return None

    # ---------------------------------------------------------------- statements
    def rvalue(self, st, fr, fn, rv, dty, tag, node):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, fn, rv[1])
        if k == "rep":
            v = self.operand(st, fr, fn, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                return ('arr', (v,) * n)
            return self.unkop("rep", (v,) if v is not None else (), dty)
        if k == "ref":
            p = self.place(st, fr, fn, rv[1])
            if p is None:
                return self.fresh(st, node, ('ref', tag), dty)
            if p[0] == 'S':
                return p[1]
            # reference to an unsized place reached without a fat pointer cannot occur
            return ('ref', p[1], p[2])
        if k == "cast":
            v = self.operand(st, fr, fn, rv[2])
            sty = self.optype(fn, rv[2])
            return self.cast(st, rv[1], v, rv[3], sty)
        if k == "bin":
            a = self.operand(st, fr, fn, rv[2])
            b = self.operand(st, fr, fn, rv[3])
            op = rv[1]
            ty = dty
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                ty = None
            return self.binop(st, op, a, b, ty, fn)
        if k == "un":
            a = self.operand(st, fr, fn, rv[2])
            if a is None:
                return None
            if rv[1] == "Not":
                if self.tk(dty) == "bool":
                    return neg(a) if self.boolean(a) else self.unkop("Not", (a,), dty)
                if isconst(a):
                    r = self.intrange(dty)
                    return L((~a[1] - r[0]) % (r[1] - r[0] + 1) + r[0])
                return self.unkop("Not", (a,), dty)
            if rv[1] == "Neg" and a[0] == 'L':
                r = scale(a, -1)
                return r if self.inrange(st, r, self.intrange(dty)) else self.unkop("Neg", (a,), dty)
            if rv[1] == "PtrMetadata":
                if a[0] == 'sl':
                    return a[4]
                if a[0] == 'str':
                    return L(len(a[1].encode()))
                if a[0] == 'u':
                    return Ls(sym(('len', a[1]), (0, (1 << 63) - 1), (a[1],)))
            return self.unkop(str(rv[1]), (a,), dty)
        if k == "disc":
            p = self.place(st, fr, fn, rv[1])
            v = self.load(st, p[1], p[2]) if p and p[0] == 'P' else None
            r = self.disc_of(st, v, self.place_ty(fn, rv[1]))
            return r if r is not None else self.fresh(st, node, ('disc', tag), dty)
        if k == "agg":
            vs = tuple(self.operand(st, fr, fn, o) for o in rv[2])
            kind = rv[1]
            if kind == "array":
                return ('arr', vs)
            if kind == "tuple":
                return ('agg', vs)
            if kind == "closure":
                return ('agg', vs, ('clo', dty))
            if kind == "rawptr":
                if len(vs) == 2 and vs[0] is not None and vs[0][0] == 'ref' and vs[1] is not None and vs[1][0] == 'L':
                    p = vs[0][2]
                    if p and p[-1][0] == 'e':
                        return ('sl', vs[0][1], p[:-1], p[-1][1], vs[1])
                return self.fresh(st, node, ('agg', tag), dty)
            if isinstance(kind, list) and kind[0] == "adt":
                t = self.prog.ty(dty)
                if t.get("kind") == "enum":
                    return ('en', kind[1], vs)
                if t.get("kind") == "union":
                    return self.fresh(st, node, ('agg', tag), dty)
                return ('agg', vs)
            return self.fresh(st, node, ('agg', tag), dty)
        return self.fresh(st, node, ('rv', tag), dty)

    def optype(self, fn, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fn, o[1])
        if o[0] == "k":
            return o[1]["t"]
        return -1

    def assign(self, st, fr, fn, node, place, v, tag):
        p = self.place(st, fr, fn, place)
        if p is None or p[0] == 'S':
            return
        if v is None and not p[2]:
            t = self.place_ty(fn, place)
            if self.intrange(t) is not None:
                v = self.fresh(st, node, ('none', tag), t)
        if self.elemrules and p[2] and p[2][-1][0] == 'e':
            for r in self.elemrules:
                r.on_store(st, node, p[1], p[2], v)
        self.store(st, node, p[1], p[2], v, tag)

    # ---------------------------------------------------------------- run
    def run(self, fnid, args=None, init=None):
        fr = self.frame(None, None, fnid)
        fn = self.fnof(fr)
        st = State()
        for i in range(1, fn.argc + 1):
            t = fn.locals[i]
            v = args[i - 1] if args and args[i - 1] is not None else self.unk2(('arg', i - 1), t, ())
            if v[0] == 'u' and self.prog.ty(t).get("k") == "ref":
                pt = self.prog.ty(t)["e"]
                META.setdefault(v[1], {'pt': pt})
                if self.tk(pt) == "slice":
                    v = ('sl', ('d', v[1]), (), ZERO, Ls(sym(('len', v[1]), (0, (1 << 63) - 1), (v[1],))))
                elif self.tk(pt) not in ("str", "dyn"):
                    v = ('ref', ('d', v[1]), ())
            st.mem[('l', fr, i)] = v
        if init:
            init(self, st, fr)
        for r in self.rules:
            r.start(st)
        self.push((fr, 0), st)
        while self.heap:
            self.steps += 1
            if self.steps > self.limit:
                raise Unsupported("fixpoint not reached within %d steps" % self.limit)
            _, node, _, key = heapq.heappop(self.heap)
            self.inheap.discard((node, key))
            s = self.states[node].get(key)
            if s is None:
                continue
            self.process(node, s.copy())
        # report pass over the fixpoint
        self.reporting = True
        for node in sorted(self.states, key=self.priority):
            for key, s in list(self.states[node].items()):
                self.process(node, s.copy())
        self.reporting = False
        return self

    def process(self, node, st):
        """run the extended basic block rooted at node"""
        work = [(node, st)]
        first = True
        while work:
            n, s = work.pop()
            if not first and self.isjoin(n):
                if not self.reporting:
                    self.push(n, s)
                continue
            first = False
            for out in self.block(n, s):
                work.append(out)

    def isjoin(self, node):
        fr, b = node
        fn = self.fnof(fr)
        if b == 0:
            return 0 in fn.heads or node in self.selfrec
        return len(fn.preds[b]) > 1 or b in self.retjoin(fr)

    selfrec = frozenset()

    def retjoin(self, fr):
        """blocks that are return points of inlined or modelled calls"""
        fn = self.fnof(fr)
        c = self.touch_cache.get(('rj', fn.id))
        if c is None:
            c = set()
            for b in fn.rpo:
                t = fn.blocks[b]["t"]
                if t[0] == "call" and t[4] is not None and isinstance(t[1], dict) and t[1].get("fn") is not None:
                    c.add(t[4])
            self.touch_cache[('rj', fn.id)] = c
        return c

    # ---- partition key and garbage collection
    def live_frames(self, node):
        """[(frame, live local set)] from innermost outwards"""
        fr, b = node
        fn = self.fnof(fr)
        out = [(fr, fn.live[b])]
        while True:
            par, blk, _, _, _ = self.frames[fr]
            if par is None:
                break
            pf = self.fnof(par)
            t = pf.blocks[blk]["t"]
            live = set(pf.live[t[4]]) if t[4] is not None else set()
            if not t[3][1]:
                live.discard(t[3][0])
            else:
                live.add(t[3][0])
            out.append((par, live))
            fr = par
        return out

    def tags(self, v, loc, out, depth=0):
        if v is None or depth > 4:
            return
        k = v[0]
        if k == 'en':
            out.append((loc, v[1]))
            for i, x in enumerate(v[2]):
                self.tags(x, loc + (i,), out, depth + 1)
        elif k == 'agg':
            for i, x in enumerate(v[1]):
                if x is not None and x[0] in ('en', 'agg', 'box'):
                    self.tags(x, loc + (i,), out, depth + 1)
        elif k == 'box':
            self.tags(v[1], loc + ('b',), out, depth + 1)

    def key(self, node, st):
        out = [(k, v) for k, v in sorted(st.gh.items(), key=repr)]
        for fr, live in self.live_frames(node):
            fn = self.fnof(fr)
            for l in sorted(live):
                v = st.mem.get(('l', fr, l))
                if v is None:
                    continue
                if v[0] in ('en', 'agg', 'box'):
                    self.tags(v, (fr, l), out)
                elif isconst(v) and l not in fn.dropflags and self.tk(fn.locals[l]) == "bool":
                    out.append(((fr, l), v[1]))
        return tuple(out)

    def coarse(self, st):
        # results on their way out stay apart even when there are too many states
        out = []
        for b in sorted((b for b in st.mem if b[0] == 'l' and b[2] == 0), key=repr):
            v = st.mem[b]
            if v is not None and v[0] in ('en', 'agg', 'box'):
                self.tags(v, b[1:], out)
        return ('coarse',) + tuple((k, v) for k, v in sorted(st.gh.items(), key=repr)) + tuple(out)

    def gc(self, node, st):
        keep = set()
        frames = {}
        for fr, live in self.live_frames(node):
            frames[fr] = live
        work = []
        for b in st.mem:
            if b[0] == 'l':
                lv = frames.get(b[1])
                if lv is not None and b[2] in lv:
                    work.append(b)
            elif b[0] in ('g',):
                work.append(b)
            elif b[0] == 'd' and KEY[b[1]][0] == 'arg':
                work.append(b)
        seen = set(work)

        def refs(v):
            if v is None:
                return
            k = v[0]
            if k in ('ref', 'sl'):
                if v[1] not in seen:
                    seen.add(v[1])
                    work.append(v[1])
            elif k in ('agg', 'arr'):
                for x in v[1]:
                    refs(x)
            elif k == 'en':
                for x in v[2]:
                    refs(x)
            elif k == 'box':
                refs(v[1])
            elif k == 'vec':
                refs(v[2])
            elif k == 'w':
                refs(v[2])
                for x in v[3]:
                    if isinstance(x, tuple):
                        refs(x)
            elif k in ('u', 'udc'):
                for s in DEPS[v[1]]:
                    bb = ('d', s)
                    if bb in st.mem and bb not in seen:
                        seen.add(bb)
                        work.append(bb)
        while work:
            b = work.pop()
            v = st.mem.get(b)
            refs(v)
        # keep ('d',s) bases whose symbol occurs in kept values
        st.mem = {b: v for b, v in st.mem.items() if b in seen}
        used = set()
        for b, v in st.mem.items():
            used |= vsyms(v)
            if b[0] == 'd':
                used |= DEPS[b[1]]
        # a fact stays if all its symbols are reachable or entry symbols
        def dead(t):
            for s in DEPS[t]:
                if s not in used and KEY[s][0] in ('site', 'kl', 'phi'):
                    return True
            return False
        gone = []
        doomed = [f for f in st.facts
                  if any(s not in used and KEY[s][0] in ('site', 'kl', 'phi') for s in vsyms(f))]
        # what the facts about to be forgotten say about the range of one symbol that stays
        keep = []
        for f in doomed:
            if f[0] == 'C' and f[1] in ('le', 'eq'):
                for s, _ in f[2][2]:
                    if s not in keep and not dead(s):
                        keep.append(s)
        nb = {}
        for s in keep:
            lo, hi = self.symb(st, s)
            lo2, hi2 = -self.ub(st, L(0, ((s, -1),))), self.ub(st, Ls(s))
            if lo2 > lo or hi2 < hi:
                nb[s] = (max(lo, lo2), min(hi, hi2))
        for s, b in nb.items():
            o = st.bnd.get(s, (-INF, INF))
            st.bnd[s] = (max(o[0], b[0]), min(o[1], b[1]))
        for f in doomed:
            for s in vsyms(f):
                if s not in used and KEY[s][0] in ('site', 'kl', 'phi'):
                    del st.facts[f]
                    if f[0] == 'C' and f[1] in ('le', 'eq'):
                        gone.append(f)
                    break
        if gone and len(gone) <= 24:
            self.eliminate(st, gone, dead)
        for d in list(st.disc):
            for s in DEPS[d]:
                if s not in used and KEY[s][0] in ('site', 'kl', 'phi'):
                    del st.disc[d]
                    break
        for s in list(st.bnd):
            if s not in used:
                del st.bnd[s]

    def eliminate(self, st, gone, dead):
        """consequences, free of dead symbols, of the inequalities that are about to be forgotten"""
        rows = []
        for f in gone:
            rows.append(f[2])
            if f[1] == 'eq':
                rows.append(scale(f[2], -1))
        order = []
        for r in rows:
            for s, _ in r[2]:
                if s not in order and dead(s):
                    order.append(s)
        for s in order:
            # the inherent range of the symbol takes part as well
            lo, hi = self.symb(st, s)
            if lo > -BIG:
                rows.append(L(lo, ((s, -1),)))
            if hi < BIG:
                rows.append(L(-hi, ((s, 1),)))
        for s in order:
            pos, ngt, rest = [], [], []
            for r in rows:
                c = 0
                for t, k in r[2]:
                    if t == s:
                        c = k
                (pos if c > 0 else ngt if c < 0 else rest).append((r, c))
            rows = [r for r, _ in rest]
            if len(pos) * len(ngt) > 40:
                continue
            for a, ca in pos:
                for b, cb in ngt:
                    if abs(ca) > 64 or abs(cb) > 64:
                        continue
                    n = add(scale(a, -cb), scale(b, ca))
                    if n[2] and n not in rows and len(n[2]) <= 5:
                        rows.append(n)
            if len(rows) > 80:
                return
        for r in rows:
            if r[2] and not any(dead(s) for s, _ in r[2]):
                g = 0
                for _, c in r[2]:
                    g = math.gcd(g, c)
                if g > 1:
                    r = L(-(-r[1] // g), tuple((s, c // g) for s, c in r[2]))
                f = C('le', r)
                if f[0] == 'C' and f not in st.facts and not self.entails(st, f):
                    self.assume(st, f, False)

    def push(self, node, st):
        for r in self.rules:
            r.on_push(st, node)
        self.gc(node, st)
        key = self.key(node, st)
        d = self.states.setdefault(node, {})
        if key not in d and len(d) >= MAXPART:
            key = self.coarse(st)
        old = d.get(key)
        if old is None:
            d[key] = st
            ch = True
        else:
            c = self.joins.get((node, key), 0) + 1
            new, ch = self.join(node, key, old, st, c)
            if ch:
                self.joins[(node, key)] = c
                d[key] = new
        if ch and (node, key) not in self.inheap:
            self.inheap.add((node, key))
            heapq.heappush(self.heap, (self.priority(node), node, self.keyno.setdefault((node, key), len(self.keyno)), key))

    # ---------------------------------------------------------------- substitution into derived symbols
    def dsub(self, v, m, keys):
        """value with symbols replaced by linear forms, derived symbols rebuilt; raises Fail"""
        if v is None:
            return None
        k = v[0]
        if k == 'L':
            for s, _ in v[2]:
                if DEPS[s] & keys:
                    break
            else:
                return v
            r = L(v[1])
            for s, c in v[2]:
                r = add(r, self.dsubsym(s, m, keys), c)
            return r
        if not (vsyms(v) & keys):
            return v
        if k == 'C':
            return C(v[1], self.dsub(v[2], m, keys))
        if k == 'AND':
            return AND([self.dsub(x, m, keys) for x in v[1]])
        if k == 'OR':
            return OR([self.dsub(x, m, keys) for x in v[1]])
        if k in ('V', 'NV'):
            return (k, self.dsub(v[1], m, keys)) + v[2:]
        raise Fail()

    def dsubsym(self, s, m, keys):
        x = m.get(s)
        if x is not None:
            return x
        if not (DEPS[s] & keys):
            return Ls(s)
        k = KEY[s]
        if k[0] == 'op' and k[1] == 'Div' and isinstance(k[3], int):
            return self.div(State(), self.dsub(k[2], m, keys), k[3])
        if k[0] == 'op':
            args = tuple(self.dsub(x, m, keys) if isinstance(x, tuple) and x and x[0] in BOOLS else
                         self.keepval(x, keys) for x in k[2:])
            deps = EMPTY
            for x in args:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    deps = deps | vsyms(x)
            return Ls(sym(('op', k[1]) + args, RNG[s], tuple(deps)))
        raise Fail()

    def keepval(self, x, keys):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and vsyms(x) & keys:
            raise Fail()
        return x

    # ---------------------------------------------------------------- join
    def join(self, node, key, S, I, count):
        owner = (node, hash(key))
        if self.eqsub:
            # what is a constant on the one side and can only be that on the other
            for b, v in S.mem.items():
                x = I.mem.get(b)
                if x is not None and x is not v and x[0] == 'L' and len(x[2]) == 1 and v is not None and v[0] == 'L' and not v[2] and self.entails(I, C('eq', sub(x, v))):
                    I = I.copy()
                    self.equate(I, sub(x, v))
        I0 = I

        def owned(s):
            k = KEY[s]
            return k[0] == 'phi' and k[1] == owner
        # rename the incoming state's copies of our own join symbols
        own = set()
        for b, v in I.mem.items():
            for s in vsyms(v):
                if owned(s):
                    own.add(s)
        for f in I.facts:
            for s in vsyms(f):
                if owned(s):
                    own.add(s)
        for d in I.disc:
            for s in DEPS[d]:
                if owned(s):
                    own.add(s)
        if own:
            I = I.copy()
            mm = {}
            for s in own:
                t = sym(('o', s), RNG[s])
                mm[s] = t
                if s in META:
                    META.setdefault(t, META[s])
                I.bnd[t] = I.bnd.get(s, (-INF, INF))
            bnd = dict(I.bnd)
            self.renstate(I, mm)
            for s in own:
                I.bnd.pop(s, None)
                I.bnd[mm[s]] = bnd.get(s, (-INF, INF))
        rows = []        # (loc, a, b, ty)

        def isown(v):
            for s in vsyms(v):
                if owned(s):
                    return True
            return False

        def oldown(v):
            for s in vsyms(v):
                k = KEY[s]
                if k[0] == 'o' and owned(k[1]):
                    return True
            return False

        def phi(loc, rng):
            return sym(('phi', owner, loc), rng)

        def jv(s, i, loc, ty):
            if s == i:
                return s
            if s is None or i is None:
                return None
            ks, ki = s[0], i[0]
            if ks in BOOLS and ki in BOOLS:
                if ks == 'L' and ki == 'L':
                    rows.append((loc, s, i, U64 if loc[0][0] == 'g' and loc[0] not in self.signed else None if loc[0][0] == 'g' else self.intrange(ty) if ty is not None and ty >= 0 else None))
                else:
                    rows.append((loc, s, i, (0, 1)))
                return ('?', len(rows) - 1)
            if ks == 'u' and ki != 'u':
                x = self.expand_like(s, i)
                if x is not None:
                    return jv(x, i, loc, ty)
            if ki == 'u' and ks != 'u':
                x = self.expand_like(i, s)
                if x is not None:
                    return jv(s, x, loc, ty)
            if ks == ki:
                if ks in ('agg', 'arr') and len(s[1]) == len(i[1]) and s[2:] == i[2:]:
                    ts = self.fieldtys(ty, len(s[1]))
                    return (ks, tuple(jv(a, b, loc + (n,), ts[n]) for n, (a, b) in enumerate(zip(s[1], i[1])))) + s[2:]
                if ks == 'en' and s[1] == i[1] and len(s[2]) == len(i[2]):
                    ts = self.fieldtys(ty, len(s[2]), s[1])
                    return ('en', s[1], tuple(jv(a, b, loc + (n,), ts[n]) for n, (a, b) in enumerate(zip(s[2], i[2]))))
                if ks == 'box':
                    return ('box', jv(s[1], i[1], loc + ('b',), None))
                if ks == 'vec':
                    return ('vec', jv(s[1], i[1], loc + ('n',), None), jv(s[2], i[2], loc + ('c',), None))
                if ks == 'w' and s[1] == i[1] and len(s[3]) == len(i[3]):
                    ex = []
                    for n, (a, b) in enumerate(zip(s[3], i[3])):
                        if a == b:
                            ex.append(a)
                        elif isinstance(a, tuple) and isinstance(b, tuple):
                            ex.append(jv(a, b, loc + ('x', n), None))
                        else:
                            ex.append(None)
                    return ('w', s[1], jv(s[2], i[2], loc + ('w',), None), tuple(ex))
                if ks == 'sl' and s[1] == i[1] and s[2] == i[2]:
                    return ('sl', s[1], s[2], jv(s[3], i[3], loc + ('s',), None), jv(s[4], i[4], loc + ('l',), None))
            t = ty if ty is not None else -1
            if ks == 'u':
                t = s[2]
            elif ki == 'u':
                t = i[2]
            p = phi(loc, None)
            for x in (s, i):
                self.origins.setdefault(p, set()).add(x)
            if t is not None and t >= 0 and self.prog.ty(t).get('k') in ('ref', 'ptr'):
                META.setdefault(p, {'pt': self.prog.ty(t).get('e', -1)})
            ms = [META.get(x[1]) if x[0] == 'u' else None for x in (s, i)]
            if all(m and m.get('ioerr') for m in ms) and ms[0].get('eof') == ms[1].get('eof'):
                m = META.setdefault(p, {})
                m.setdefault('ioerr', True)
                if m.setdefault('eof', ms[0]['eof']) != ms[0]['eof']:
                    m['ioerr'] = False
            elif p in META and META[p].get('ioerr'):
                META[p]['ioerr'] = False
            return ('u', p, t)

        mem = {}
        for b, v in S.mem.items():
            if b in I.mem:
                w = I.mem[b]
            elif b[0] in ('d', 'g'):
                w = self.base_default(b)
            else:
                continue
            mem[b] = jv(v, w, (b,), self.basety(b))
        for b, w in I.mem.items():
            if b not in S.mem and (b[0] == 'g' or b[0] == 'd' and not any(owned(x) or KEY[x][0] == 'o' for x in DEPS[b[1]])):
                v = self.base_default(b)
                mem[b] = jv(v, w, (b,), None)
        # classes of rows that move together
        classes = {}
        res = [None] * len(rows)
        reps = []
        def rank(r):
            loc, a, b, rng = rows[r]
            if loc in self.tracked:
                return 4
            if a[0] == 'L' and len(a[2]) == 1 and a[1] == 0 and a[2][0][1] == 1 and owned(a[2][0][0]):
                return 0 if KEY[a[2][0][0]][2] == loc else 1
            for x in (a, b):
                if x[0] != 'L':
                    return 3
                for s, _ in x[2]:
                    if KEY[s][0] == 'op':
                        return 3
            return 1 if rng is not None and loc[0][0] != 'g' else 2
        rk = [rank(r) for r in range(len(rows))]
        order = sorted(range(len(rows)), key=lambda r: rk[r])
        invS, invI, mS, mI, altS = {}, {}, {}, {}, {}
        basis = []
        for r in order:
            loc, a, b, rng = rows[r]
            if rk[r] == 3 and (invS or invI):
                ks = frozenset(mS)

                def generalised(inv, v=a):
                    try:
                        c = self.dsub(v, inv, frozenset(inv))
                        if vsyms(c) & ks and self.dsub(c, mS, ks) == a and self.dsub(c, mI, ks) == b:
                            return c
                    except Fail:
                        pass
                    return None
                c = generalised(invS)
                if c is None and invI:
                    c = generalised(invI, b)
                    if c is not None and oldown(c):
                        c = None
                if c is None:
                    # a symbol that went two ways: try the other ways too
                    for s in sorted(set(altS) & vsyms(a)):
                        for l in altS[s]:
                            c = c if c is not None else generalised({**invS, s: l})
                if c is not None:
                    res[r] = c
                    continue
            if a[0] != 'L' or b[0] != 'L':
                p = phi(loc, rng)
                og = self.origins.setdefault(p, set())
                og.add(a)
                og.add(b)
                res[r] = Ls(p)
                continue
            dk = sub(b, a)
            done = False
            for rep in classes.get(dk, ()):
                ra = rows[rep][1]
                df = sub(a, ra)
                if not isown(df) and not oldown(df):
                    res[r] = ('+', rep, df)
                    done = True
                    break
            if not done:
                # one grows as another shrinks
                for rep in classes.get(scale(dk, -1), ()):
                    sm = add(a, rows[rep][1])
                    if not isown(sm) and not oldown(sm):
                        res[r] = ('-', rep, sm)
                        done = True
                        break
            if not done and self.eqsub:
                # a combination of others
                cb, red = self.combine(basis, dk)
                if cb is not None:
                    k = a
                    for j, c in cb:
                        k = add(k, rows[j][1], -c)
                    if not isown(k) and not oldown(k):
                        res[r] = ('*', cb, k)
                        done = True
            if not done and rk[r] == 4:
                # equal to another for reasons that only show in the facts
                for j in range(len(rows)):
                    aj, bj = rows[j][1:3]
                    if rk[j] > 2 or aj[0] != 'L' or bj[0] != 'L':
                        continue
                    k = sub(a, aj)
                    if not k[2] and self.entails(I, C('eq', sub(sub(b, bj), k))):
                        res[r] = ('+', j, k)
                        done = True
                        break
            if not done:
                classes.setdefault(dk, []).append(r)
                reps.append(r)
                if self.eqsub and cb is None:
                    if red is not None:
                        red[2][r] = red[3]
                        basis.append((r,) + red[:3])
                p = phi(loc, rng)     # one symbol per place
                res[r] = Ls(p)
                mS[p], mI[p] = a, b
                if len(a[2]) == 1 and a[2][0][1] == 1 and KEY[a[2][0][0]][0] not in ('pos0', 'slen'):
                    if a[2][0][0] not in invS:
                        invS[a[2][0][0]] = L(-a[1], ((p, 1),))
                    else:
                        altS.setdefault(a[2][0][0], []).append(L(-a[1], ((p, 1),)))
                elif not a[2] and len(b[2]) == 1 and b[2][0][1] == 1 and KEY[b[2][0][0]][0] not in ('pos0', 'slen'):
                    invI.setdefault(b[2][0][0], L(-b[1], ((p, 1),)))
        oppo = []
        for r in order:
            x = res[r]
            if x is not None and x[0] == '+':
                res[r] = add(res[x[1]], x[2])
            elif x is not None and x[0] == '-':
                res[r] = sub(x[2], res[x[1]])
                a = rows[r][1]
                if len(a[2]) == 1 and a[1] == 0 and a[2][0][1] == 1:
                    oppo.append((a[2][0][0], res[r]))
            elif x is not None and x[0] == '*':
                res[r] = x[2]
                for j, c in x[1]:
                    res[r] = add(res[r], res[j], c)

        def fill(v):
            if v is None:
                return None
            k = v[0]
            if k == '?':
                return res[v[1]]
            if k in ('agg', 'arr'):
                return (k, tuple(fill(x) for x in v[1])) + v[2:]
            if k == 'en':
                return ('en', v[1], tuple(fill(x) for x in v[2]))
            if k == 'box':
                return ('box', fill(v[1]))
            if k == 'vec':
                return ('vec', fill(v[1]), fill(v[2]))
            if k == 'w':
                return ('w', v[1], fill(v[2]), tuple(fill(x) if isinstance(x, tuple) else x for x in v[3]))
            if k == 'sl':
                return ('sl', v[1], v[2], fill(v[3]), fill(v[4]))
            return v
        R = State()
        R.mem = {b: fill(v) for b, v in mem.items()} if rows else mem
        R.gh = {k: v for k, v in S.gh.items() if I.gh.get(k) == v}
        R.disc = {d: v for d, v in S.disc.items() if I.disc.get(d) == v and not any(owned(x) for x in DEPS[d])}
        # substitutions new join symbol -> value in S / I
        sS, sI = {}, {}
        for r in reps:
            p = res[r][2][0][0]
            sS[p] = rows[r][1]
            sI[p] = rows[r][2]
            og = self.origins.setdefault(p, set())
            for x in (rows[r][1], rows[r][2]):
                if x != Ls(p):
                    og.add(x)
        # bounds
        for s, bd in S.bnd.items():
            if s in sS:
                continue
            if owned(s):
                continue
            b2 = I.bnd.get(s)
            if b2 is not None:
                R.bnd[s] = (min(bd[0], b2[0]), max(bd[1], b2[1]))
        for p in sS:
            a = self.bounds(S, sS[p])
            b = self.bounds(I, sI[p])
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            oldb = S.bnd.get(p) if sS[p] == Ls(p) else None
            if oldb is not None:
                lo, hi = min(lo, oldb[0]), max(hi, oldb[1])
                if count > 2:
                    if hi > oldb[1]:
                        hi = self.threshold(node, hi) if count <= 12 else min([t for t in self.limits if t >= hi], default=INF)
                    if lo < oldb[0]:
                        lo = 0 if lo >= 0 else -INF
            R.bnd[p] = (lo, hi)
        # facts
        cand = {}
        for f in S.facts:
            cand[f] = None
        if count <= 3:
            for f in I.facts:
                if not oldown(f):
                    cand[f] = None
        ex = []
        bS, bI = {}, {}

        def bounds(st, memo, l):
            b = memo.get(l)
            if b is None:
                b = memo[l] = self.bounds(st, l)
            return b
        for inv_, facts, is_s in ((invS, S.facts, True), (None, I.facts, False)):
            if not is_s:
                if count > 3:
                    continue
                inv_ = {}
                for p, b in sI.items():
                    if len(b[2]) == 1 and b[2][0][1] == 1 and b[2][0][0] not in inv_:
                        inv_[b[2][0][0]] = L(-b[1], ((p, 1),))
            inv_ = {a: l for a, l in inv_.items() if l != Ls(a)}
            if self.eqsub:
                for r in range(len(rows)):
                    x = rows[r][1 if is_s else 2]
                    if x[0] == 'L' and len(x[2]) == 1 and x[2][0][1] == 1 and res[r] is not None and res[r][0] == 'L' \
                            and x[2][0][0] not in inv_ and KEY[x[2][0][0]][0] not in ('pos0', 'slen'):
                        inv_[x[2][0][0]] = sub(res[r], L(x[1]))
            if not inv_:
                continue
            ks = frozenset(inv_)
            for f in facts:
                if vsyms(f) & ks and f[0] != 'L':
                    try:
                        ex.append(self.dsub(f, inv_, ks))
                    except Fail:
                        pass
        for a, ls in altS.items():
            for l in ls:
                inv_ = {**invS, a: l}
                ks = frozenset(inv_)
                for f in S.facts:
                    if f[0] != 'L' and a in vsyms(f):
                        try:
                            ex.append(self.dsub(f, inv_, ks))
                        except Fail:
                            pass
        for a, l in oppo:
            ks = frozenset((a,))
            for f in S.facts:
                if f[0] != 'L' and a in vsyms(f):
                    try:
                        ex.append(self.dsub(f, {a: l}, ks))
                    except Fail:
                        pass
        for p in sS:
            for src, facts, is_s in ((sS[p], S.facts, True), (sI[p], I.facts, False)):
                if not is_s and count > 3:
                    continue
                for s, c in src[2]:
                    if c in (1, -1) and not (s == p):
                        inv = scale(sub(Ls(p), add(src, Ls(s), -c)), c)
                        for f in facts:
                            if f[0] == 'C' and s in {x for x, _ in f[2][2]}:
                                n = L(f[2][1])
                                for x, k in f[2][2]:
                                    n = add(n, inv if x == s else Ls(x), k)
                                ex.append(C(f[1], n))
            if count == 1 and not isown(sS[p]):
                ex.append(C('le', sub(sS[p], Ls(p))))
                ex.append(C('le', sub(Ls(p), sS[p])))
            if self.octagon and count == 1 and not sS[p][2] and not isown(sS[p]):
                # what the bounds on either side say about the distance to an option
                ba, bb = bounds(S, bS, sS[p]), bounds(I, bI, sI[p])
                for s in R.bnd:
                    if KEY[s][0] == 'fld' and s in S.bnd and s in I.bnd:
                        sa, sb = bounds(S, bS, Ls(s)), bounds(I, bI, Ls(s))
                        if sa == sb:
                            continue
                        k = min(sa[0] - ba[1], sb[0] - bb[1])
                        if -INF < k < INF and min(sa[0], sb[0]) - max(ba[1], bb[1]) < k:
                            ex.append(C('le', add(sub(Ls(p), Ls(s)), L(k))))
                        k = min(ba[0] - sa[1], bb[0] - sb[1])
                        if -INF < k < INF and min(ba[0], bb[0]) - max(sa[1], sb[1]) < k:
                            ex.append(C('le', add(sub(Ls(s), Ls(p)), L(k))))
                for v in (sS[p], sI[p]):
                    if v[0] == 'L' and len(v[2]) == 1 and v[2][0][1] == 1 and KEY[v[2][0][0]][0] == 'fld':
                        ex.append(C('le', sub(v, Ls(p))))
                        ex.append(C('le', sub(Ls(p), v)))
        # bounds that the old facts give to symbols which stay as they are
        alive = set()
        for v in R.mem.values():
            alive |= vsyms(v)
        for f in S.facts:
            if f in I.facts or f[0] != 'C':
                continue
            for s, _ in f[2][2]:
                if s in alive and not owned(s):
                    q = self.quick(S, Ls(s))
                    b = bounds(S, bS, Ls(s))
                    if b[0] > q[0]:
                        ex.append(C('le', sub(L(b[0]), Ls(s))))
                    if b[1] < q[1]:
                        ex.append(C('le', sub(Ls(s), L(b[1]))))
        if self.eqsub:
            for s in alive:
                q, b = S.bnd.get(s), R.bnd.get(s)
                if q is not None and b is not None and q != b and not owned(s):
                    if b[0] < q[0]:
                        ex.append(C('le', sub(L(q[0]), Ls(s))))
                    if b[1] > q[1]:
                        ex.append(C('le', sub(Ls(s), L(q[1]))))
            for r in range(len(rows)):
                x, a, b = res[r], rows[r][1], rows[r][2]
                if x is not None and x[0] == 'L' and len(x[2]) > 1 and a[0] == 'L' and b[0] == 'L':
                    for f in [C('le', scale(x, -1))] + [C('le', sub(x, L(t))) for t in self.limits]:
                        if f != ONE and self.quick(R, f[2])[1] > 0:
                            ex.append(f)
        for f in ex:
            if f[0] != 'L' and not oldown(f):
                cand[f] = None
        live_own = set(sS)
        todo = []

        def prov(st, memo, f):
            """does the state entail f"""
            if f == ONE:
                return True
            r = memo.get(f)
            if r is None:
                r = memo[f] = self.entails(st, f)
            return r
        for f in cand:
            if f[0] == 'L':
                continue
            sy = vsyms(f)
            os_ = [s for s in sy if owned(s)]
            if any(s not in live_own for s in os_):
                continue
            direct = f[0] == 'C'
            try:
                if os_:
                    ks = frozenset(os_)
                    fS = self.dsub(f, sS, ks)
                    fI = self.dsub(f, sI, ks)
                else:
                    fS = fI = f
            except Fail:
                continue
            if fS == ZERO or fI == ZERO:
                continue
            todo.append((f, fS, fI))
        # one state after the other
        mS, mI = {}, {}
        self.frozen, self.pool = S, set().union(*[vsyms(t[1]) for t in todo])
        todo = [t for t in todo if prov(S, mS, t[1])]
        self.frozen, self.pool = I, set().union(*[vsyms(t[2]) for t in todo])
        for f, _, fI in todo:
            if prov(I, mI, fI):
                R.facts[f] = None
        self.frozen = self.given = None
        # relations a rule wants to know about
        for rl in self.rules:
            for t in rl.relations:
                fS, fI, fR = t(S), t(I0), t(R)
                if fS is None or fI is None or fR is None or fR[0] == 'L':
                    continue
                if fR not in R.facts and self.entails(S, fS) and self.entails(I0, fI):
                    R.facts[fR] = None
        # prune facts implied by bounds alone
        for f in list(R.facts):
            if f[0] == 'C' and f[1] == 'le' and self.quick(R, f[2])[1] <= 0:
                del R.facts[f]
        ch = not (R.mem == S.mem and R.disc == S.disc and R.gh == S.gh and set(R.facts) == set(S.facts)
                  and {k: v for k, v in R.bnd.items()} == {k: v for k, v in S.bnd.items()})
        if ch and count > 25:
            # force convergence: forget facts and bounds that still move
            R.facts = {f: None for f in R.facts if f in S.facts}
            for p in list(R.bnd):
                if S.bnd.get(p) != R.bnd[p]:
                    R.bnd[p] = (-INF, INF) if R.bnd[p][0] < 0 else (0, INF)
            if count > 200:
                raise Unsupported("join does not converge at %s" % self.where(node))
        return R, ch

    frozen = given = None
    limits = frozenset()
    octagon = False

    def threshold(self, node, hi):
        """the next constant the function at the node has compared with"""
        ts = sorted(set(self.thresholds.get(self.frames[node[0]][2], ())) | self.limits)
        for t in ts:
            if t >= hi:
                return t
        return INF

    def combine(self, basis, d):
        """-> ([(row, factor)], None) if d is a combination of the rows of the basis with whole factors, else (None, what to add to the basis)"""
        v = {x: Fraction(c) for x, c in d[2]}
        if d[1]:
            v[None] = Fraction(d[1])
        cf = {}
        for r, piv, w, comb in basis:
            c = v.get(piv)
            if c:
                for x, y in w.items():
                    z = v.get(x, 0) - c * y
                    if z:
                        v[x] = z
                    else:
                        v.pop(x, None)
                for j, y in comb.items():
                    cf[j] = cf.get(j, 0) + c * y
        cf = {j: c for j, c in cf.items() if c}
        if not v:
            if all(c.denominator == 1 for c in cf.values()):
                return [(j, int(c)) for j, c in cf.items()], None
            return None, None
        piv = min(v, key=lambda x: (x is None, x if x is not None else 0))
        p = v[piv]
        return None, (piv, {x: y / p for x, y in v.items()}, {j: -c / p for j, c in cf.items()}, 1 / p)

    def basety(self, b):
        if b[0] == 'l':
            return self.fnof(b[1]).locals[b[2]]
        if b[0] == 'd':
            return (META.get(b[1]) or {}).get('pt', -1)
        return None

    def fieldtys(self, ty, n, variant=None):
        t = self.prog.ty(ty) if ty is not None and ty >= 0 else {}
        k = t.get("k")
        r = None
        if k in ("tuple", "closure"):
            r = t.get("f")
        elif k == "array":
            r = [t["e"]] * n
        elif k == "adt" and t.get("v"):
            vs = t["v"]
            vi = variant if variant is not None else 0
            if vi < len(vs):
                r = [f["t"] for f in vs[vi]["f"]]
        if not r or len(r) != n:
            return [None] * n
        return r

    def expand_like(self, u, other):
        if other[0] in ('agg', 'arr'):
            x = self.expand(u)
            if x is not None and x[0] == other[0] and len(x[1]) == len(other[1]):
                return x
        if other[0] == 'vec':
            return ('vec', self.veclen(u), ('u', sym(('vc', u[1]), None, (u[1],)), -1))
        return None

    def veclen(self, v):
        if v is None:
            return None
        if v[0] == 'vec':
            return v[1]
        if v[0] == 'u':
            return Ls(sym(('len', v[1]), (0, (1 << 63) - 1), (v[1],)))
        if v[0] == 'arr':
            return L(len(v[1]))
        if v[0] == 'str':
            return L(len(v[1].encode()))
        return None

    # ---------------------------------------------------------------- block
    def where(self, node):
        fr, b = node
        fn = self.fnof(fr)
        t = fn.blocks[b]["t"]
        for x in reversed(t):
            if isinstance(x, str) and ":" in x and ".rs" in x:
                return "%s (%s)" % (x, fn.path)
        return "%s (%s)" % (fn.span, fn.path)

    def srcspan(self, node):
        """innermost span inside the crate"""
        fr, b = node
        while fr is not None:
            fn = self.fnof(fr)
            t = fn.blocks[b]["t"]
            sp = None
            for x in reversed(t):
                if isinstance(x, str) and ".rs:" in x:
                    sp = x
                    break
            if sp and sp.startswith("src/"):
                return sp
            par, pb = self.frames[fr][0], self.frames[fr][1]
            if par is None:
                return sp or fn.span
            fr, b = par, pb
        return "?"

    def srcfn(self, node):
        fr, b = node
        while fr is not None:
            fn = self.fnof(fr)
            if fn.local:
                return fn.path
            fr, b = self.frames[fr][0], self.frames[fr][1]
        return "?"

    def block(self, node, st, first=0):
        self.curfn = self.frames[node[0]][2]
        self.curnode = node
        fr, b = node
        fn = self.fnof(fr)
        blk = fn.blocks[b]
        self.analysed.add((fn.path, b))
        for n, s in enumerate(blk["s"]):
            if n < first:
                continue
            if s[0] == "=":
                if s[2][0] == "cast" and s[2][1] == "IntToInt":
                    v = self.operand(st, fr, fn, s[2][2])
                    if v is not None and v[0] != 'L' and self.boolean(v):
                        # a condition used as a number: one state for each outcome
                        out = []
                        for val in (0, 1):
                            s2 = st.copy()
                            if self.assume(s2, v if val else neg(v)):
                                self.assign(s2, fr, fn, node, s[1], L(val), (b, n))
                                out += self.block(node, s2, n + 1)
                        return out
                v = self.rvalue(st, fr, fn, s[2], self.place_ty(fn, s[1]), (b, n), node)
                self.assign(st, fr, fn, node, s[1], v, (b, n))
            elif s[0] == "sd":
                p = self.place(st, fr, fn, s[1])
                if p and p[0] == 'P':
                    v = self.load(st, p[1], p[2])
                    fs = ()
                    if v is not None and v[0] in ('agg',):
                        fs = v[1]
                    elif v is not None and v[0] == 'en':
                        fs = v[2]
                    self.store(st, node, p[1], p[2], ('en', s[2], fs), (b, n))
            elif s[0] == "dead":
                st.mem.pop(('l', fr, s[1]), None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [((fr, t[1]), s) for s in self.outcomes(st, fr, blk["s"])]
        if k == "switch":
            out = self.switch(node, st, fr, fn, t)
            for r in self.rules:
                for to, s in out:
                    r.on_switch(s, node, to)
            return out
        if k == "ret":
            return self.ret(node, st, fr, fn)
        if k == "drop":
            self.event(st, node, 'drop', place=t[1], ty=t[3] if len(t) > 3 else -1, fr=fr)
            return [((fr, t[2]), st)]
        if k == "call":
            return self.call(node, st, fr, fn, t)
        if k == "assert":
            c = self.operand(st, fr, fn, t[1])
            if c is None or not self.boolean(c):
                self.panic(st, node, "assert:" + str(t[3]))
                return [((fr, t[5]), st)]
            want = c if t[2] else neg(c)
            if not self.entails(st, want):
                self.panic(st, node, "assert:" + str(t[3]))
            if not self.assume(st, want):
                return []
            return [((fr, t[5]), st)]
        return []

    def outcomes(self, st, fr, stmts):
        """one state for each outcome of a condition that outlives the block it is found in"""
        for n, s in enumerate(stmts):
            if s[0] == "=" and s[2][0] == "bin" and not s[1][1]:
                b = ('l', fr, s[1][0])
                v = st.mem.get(b)
                if v is not None and v[0] != 'L' and self.boolean(v):
                    out = []
                    for val in (0, 1):
                        s2 = st.copy()
                        if self.assume(s2, v if val else neg(v)):
                            s2.mem[b] = L(val)
                            out += self.outcomes(s2, fr, stmts[n + 1:])
                    return out
        return [st]

    def switch(self, node, st, fr, fn, t):
        v = self.operand(st, fr, fn, t[1])
        out = []
        if v is None:
            v = self.fresh(st, node, 'sw', t[4])
            if v[0] == 'u':
                return [((fr, x), st.copy()) for x in fn.succ[node[1]]]
        if isconst(v):
            for val, b in t[2]:
                if val == v[1]:
                    return [((fr, b), st)]
            return [((fr, t[3]), st)]
        if v[0] == 'L':
            rest = []
            for val, b in t[2]:
                s = st.copy()
                if self.assume(s, C('eq', sub(v, L(val)))):
                    out.append(((fr, b), s))
                rest.append(C('ne', sub(v, L(val))))
            if fn.blocks[t[3]]["t"][0] != "unreachable":
                s = st
                ok = True
                for r in rest:
                    if not self.assume(s, r):
                        ok = False
                        break
                if ok:
                    out.append(((fr, t[3]), s))
            return out
        if self.boolean(v):
            vals = [x for x, _ in t[2]]
            done = set()
            for val, b in t[2]:
                s = st.copy()
                done.add(val)
                if val in (0, 1) and self.assume(s, v if val == 1 else neg(v)):
                    out.append(((fr, b), s))
            for val in (0, 1):
                if val not in done:
                    s = st.copy()
                    if self.assume(s, v if val == 1 else neg(v)):
                        out.append(((fr, t[3]), s))
            return out
        return [((fr, x), st.copy()) for x in fn.succ[node[1]]]

    def ret(self, node, st, fr, fn):
        v = st.mem.get(('l', fr, 0))
        if v is None:
            t = self.prog.ty(fn.locals[0])
            if t.get("k") == "tuple" and not t["f"]:
                v = ('agg', ())
        par, pb, _, _, _ = self.frames[fr]
        for r in self.rules:
            r.on_return(st, node, fn, v, par is None)
        if par is None:
            return []
        for b in [b for b in st.mem if b[0] == 'l' and b[1] == fr]:
            del st.mem[b]
        pf = self.fnof(par)
        t = pf.blocks[pb]["t"]
        if t[4] is None:
            return []
        if v is not None and v[0] != 'L' and self.boolean(v):
            # a condition handed to the caller: one state for each outcome
            out = []
            for val in (0, 1):
                s2 = st.copy()
                if self.assume(s2, v if val else neg(v)):
                    self.assign(s2, par, pf, (par, pb), t[3], L(val), 'ret')
                    out.append(((par, t[4]), s2))
            return out
        self.assign(st, par, pf, (par, pb), t[3], v, 'ret')
        return [((par, t[4]), st)]

    # ---------------------------------------------------------------- calls
    def touches(self, fnid):
        """does the function (transitively, within the dumped bodies) perform stream or process effects?"""
        c = self.touch_cache.get(fnid)
        if c is not None:
            return c
        self.touch_cache[fnid] = False
        fn = self.prog.fn(fnid)
        r = False
        for b in fn.rpo:
            t = fn.blocks[b]["t"]
            if t[0] != "call":
                continue
            cl = t[1]
            if isinstance(cl, dict):
                if self.models.is_effect(cl):
                    r = True
                    break
                if cl.get("fn") is not None and self.touches(cl["fn"]):
                    r = True
                    break
        self.touch_cache[fnid] = r
        return r

    def small(self, fn):
        return not fn.cyclic and len(fn.rpo) <= 60

    def inline(self, fn, chain):
        if fn.id in chain:
            return False
        for r in self.rules:
            x = r.inline(fn)
            if x is not None:
                return x
        if not fn.local:
            return not fn.cyclic and len(fn.rpo) <= 60
        if self.touches(fn.id):
            return True
        return self.small(fn) or len(fn.rpo) <= 24

    def event(self, st, node, kind, **info):
        for r in self.rules:
            r.on_event(st, node, kind, info)

    def panic(self, st, node, what):
        for r in self.rules:
            r.on_panic(st, node, what)

    def call(self, node, st, fr, fn, t):
        cl, args, dest, target, span, destty, argtys = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        vals = [self.operand(st, fr, fn, a) for a in args]
        c = Call()
        c.node, c.fn, c.args, c.argtys, c.dest, c.destty, c.target, c.span = node, fn, vals, argtys, dest, destty, target, span
        if not isinstance(cl, dict):
            c.path = c.full = "<indirect>"
            c.trait = c.method = None
            c.callee = {}
            c.crate = ""
            c.selfty = None
            # known closure or function value?
            outs = self.opaque_call(st, c)
            return self.finish(node, fr, fn, outs, dest, target)
        c.callee = cl
        c.path = cl.get("path") or cl.get("decl") or "?"
        c.full = cl.get("full") or c.path
        c.trait = cl.get("trait") or cl.get("itrait")
        c.method = cl.get("method") or cl.get("imethod") or c.path.split("::")[-1]
        c.crate = cl.get("crate") or ""
        c.selfty = cl.get("selfty")
        outs = None
        for r in self.rules:
            outs = r.model(self, st, c)
            if outs is not None:
                break
        if outs is None:
            outs = self.models.apply(self, st, c)
        if outs is not None:
            return self.finish(node, fr, fn, outs, dest, target)
        fid = cl.get("fn")
        if fid is not None:
            callee = self.prog.fn(fid)
            chain = self.frames[fr][3]
            if fid == self.frames[fr][2] and self.tailcall(fn, node[1]):
                # self tail call: back edge to the function's own entry
                self.selfrec = self.selfrec | {(fr, 0)}
                for b in [b for b in st.mem if b[0] == 'l' and b[1] == fr]:
                    del st.mem[b]
                for i, v in enumerate(vals):
                    st.mem[('l', fr, i + 1)] = v
                return [((fr, 0), st)]
            if self.inline(callee, chain):
                nf = self.frame(fr, node[1], fid)
                av = vals
                if callee.closure_ and len(vals) == 2 and callee.argc != 2 and vals[1] is not None and vals[1][0] == 'agg':
                    av = [vals[0]] + list(vals[1][1])
                elif callee.closure_ and len(vals) == 2 and callee.argc == 2 and vals[1] is not None and vals[1][0] == 'agg' \
                        and callee.d.get("spread") is None and len(vals[1][1]) == 1:
                    av = [vals[0], vals[1][1][0]]
                if callee.closure_ and av and av[0] is not None and av[0][0] != 'ref':
                    # closure body takes self by reference when called through FnOnce shim of Fn/FnMut
                    t1 = self.prog.ty(callee.locals[1])
                    if t1.get("k") == "ref":
                        tmp = ('l', nf, 'env')
                        st.mem[tmp] = av[0]
                        av = [('ref', tmp, ())] + av[1:]
                for i in range(callee.argc):
                    st.mem[('l', nf, i + 1)] = av[i] if i < len(av) else None
                if len(fn.preds) and 0 in callee.heads:
                    pass
                return [((nf, 0), st)]
        outs = self.opaque_call(st, c)
        return self.finish(node, fr, fn, outs, dest, target)

    def tailcall(self, fn, b):
        """call at b whose result is returned unchanged"""
        t = fn.blocks[b]["t"]
        if t[3] != [0, []] or t[4] is None:
            return False
        work, seen = [t[4]], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 40:
                return False
            blk = fn.blocks[x]
            for s in blk["s"]:
                if s[0] == "=" and s[1][0] == 0:
                    return False
            k = blk["t"][0]
            if k == "ret":
                continue
            if k not in ("goto", "drop", "switch"):
                return False
            work += fn.succ[x]
        return True

    def finish(self, node, fr, fn, outs, dest, target):
        res = []
        for st, v in outs:
            if target is None:
                continue
            self.assign(st, fr, fn, node, dest, v, 'call')
            res.append(((fr, target), st))
        return res

    def havoc_ref(self, st, node, v, tag, ty):
        """the callee may write through this value"""
        if v is None:
            return
        k = v[0]
        t = self.prog.ty(ty) if ty is not None else {}
        if k == 'ref':
            cur = self.load(st, v[1], v[2])
            if cur is not None and cur[0] == 'ref':
                self.havoc_ref(st, node, cur, tag, -1)
                return
            ety = t.get("e", -1) if t.get("k") in ("ref", "ptr") else -1
            for r in self.rules:
                if r.keep_through(st, cur, v):
                    return
            nv = self.fresh(st, node, ('hv', tag), ety if ety != -1 else (cur[2] if cur and cur[0] == 'u' else -1))
            self.store(st, node, v[1], v[2], nv, ('hv', tag))
        elif k == 'sl':
            ety = t.get("e", -1) if t.get("k") in ("ref", "ptr") else -1
            cur = self.load(st, v[1], v[2])
            if cur is not None and cur[0] in ('arr', 'u') and isconst(v[3]) and isconst(v[4]) and v[4][1] <= 64:
                et = self.prog.ty(ety).get("e", -1)
                for i in range(v[3][1], v[3][1] + v[4][1]):
                    self.store(st, node, v[1], v[2] + (('e', L(i), et),), self.fresh(st, node, ('hv', tag, i), et), ('hv', tag, i))
            else:
                cv = cur
                if cv is not None and cv[0] == 'vec':
                    self.store(st, node, v[1], v[2], ('vec', cv[1], ('u', self.freshsym(st, node, ('hv', tag)), -1)), ('hv', tag))
                else:
                    s = self.freshsym(st, node, ('hv', tag))
                    self.store(st, node, v[1], v[2], ('u', s, cv[2] if cv and cv[0] == 'u' else -1), ('hv', tag))
        elif k == 'u':
            if t.get("k") in ("ref", "ptr") and t.get("mut"):
                META.setdefault(v[1], {'pt': t.get("e", -1)})
                st.mem[('d', v[1])] = self.fresh(st, node, ('hv', tag), t.get("e", -1))
        elif k in ('agg',):
            for i, x in enumerate(v[1]):
                if x is not None and x[0] in ('ref', 'sl', 'agg', 'w'):
                    self.havoc_ref(st, node, x, (tag, i), -1)
        elif k == 'w':
            self.havoc_ref(st, node, v[2], (tag, 'w'), -1) if v[2] is not None and v[2][0] in ('ref', 'w') else None

    def havoc_fields(self, st, node, v, tag, ty, fs):
        """the callee writes only these fields of what v points at"""
        t = self.prog.ty(self.prog.ty(ty).get("e", -1)) if ty is not None and ty >= 0 else {}
        vs = t.get("v")
        if t.get("kind") != "struct" or not vs:
            return False
        cur = self.load(st, v[1], v[2])
        if cur is not None and cur[0] == 'ref':
            return False
        for i in sorted(fs):
            if i >= len(vs[0]["f"]):
                return False
            ft = vs[0]["f"][i]["t"]
            old = self.load(st, v[1], v[2] + (('f', i, ft),))
            if old is not None and old[0] in ('ref', 'w', 'box'):
                return False
            x = self.fresh(st, node, ('hv', tag, i), ft)
            self.store(st, node, v[1], v[2] + (('f', i, ft),), x, ('hv', tag, i))
        return True

    def modfields(self, fnid, arg, stack=()):
        """fields of the struct behind a reference argument that the function may write; None = any"""
        key = ('mod', fnid, arg)
        if key in self.touch_cache:
            return self.touch_cache[key]
        if key in stack:
            return frozenset()
        fn = self.prog.fn(fnid)
        r = self._modfields(fn, arg, stack + (key,))
        if not stack:
            self.touch_cache[key] = r
        return r

    def _modfields(self, fn, arg, stack):
        alias = {arg}
        ch = True
        while ch:                      # flow-insensitive copies and reborrows of the pointer
            ch = False
            for b in fn.rpo:
                for s in fn.blocks[b]["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    src = None
                    if rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                        src = rv[1][1] if not rv[1][1][1] else None
                    elif rv[0] == "ref" and rv[1][1] == ["*"]:
                        src = rv[1]
                    if src is not None and src[0] in alias:
                        if s[1][1]:
                            return None
                        if s[1][0] not in alias:
                            alias.add(s[1][0])
                            ch = True
        out = set()

        def wr(place):
            """a write or mutable borrow of a place; False = everything"""
            if place[0] not in alias or not place[1]:
                return True
            p = place[1]
            if p[0] == "*" and len(p) > 1 and isinstance(p[1], list) and p[1][0] == "f":
                out.add(p[1][1])
                return True
            return False

        def leak(o):
            return o[0] in ("cp", "mv") and o[1][0] in alias and not o[1][1]
        for b in fn.rpo:
            blk = fn.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    if not wr(s[1]):
                        return None
                    rv = s[2]
                    k = rv[0]
                    if k == "ref" and rv[1][0] in alias:
                        if rv[1][1] == ["*"]:
                            continue
                        if not rv[1][1]:
                            return None
                        if len(rv) > 2 and rv[2] is False:
                            continue
                        if not wr(rv[1]):
                            return None
                    elif k == "agg" and any(leak(o) for o in rv[2]):
                        return None
                    elif k in ("rep", "un") and len(rv) > 1 and any(isinstance(o, list) and o and o[0] in ("cp", "mv") and leak(o) for o in rv[1:]):
                        return None
                    elif k == "cast" and leak(rv[2]):
                        return None
                    elif k == "bin" and (leak(rv[2]) or leak(rv[3])):
                        return None
                elif s[0] == "sd":
                    if not wr(s[1]):
                        return None
            t = blk["t"]
            if t[0] == "call":
                if not wr(t[3]):
                    return None
                for i, o in enumerate(t[2]):
                    if leak(o):
                        cl = t[1]
                        fid = cl.get("fn") if isinstance(cl, dict) else None
                        if fid is None or not self.prog.fn(fid).local:
                            return None
                        sub_ = self.modfields(fid, i + 1, stack)
                        if sub_ is None:
                            return None
                        out |= sub_
            elif t[0] == "drop":
                if t[1][0] in alias and t[1][1] and not wr(t[1]):
                    return None
        return frozenset(out)

    def deep(self, st, v, d=0):
        """value with references replaced by what they point at (for naming pure applications)"""
        if v is None or d > 6:
            return ('str', '?')
        k = v[0]
        if k == 'ref':
            return self.deep(st, self.load(st, v[1], v[2]), d + 1)
        if k == 'sl':
            if isconst(v[3]) and isconst(v[4]) and v[4][1] <= 64:
                return ('arr', tuple(self.deep(st, self.load(st, v[1], v[2] + (('e', L(i)),)), d + 1)
                                     for i in range(v[3][1], v[3][1] + v[4][1])))
            c = self.load(st, v[1], v[2])
            if c is not None and c[0] == 'vec':
                if c[1] == v[4] and v[3] == ZERO:
                    return self.deep(st, c, d + 1)
                c = c[2]
            if c is None:
                return ('str', '?')
            return ('agg', (self.deep(st, c, d + 1), v[3], v[4]))
        if k in ('agg', 'arr'):
            return (k, tuple(self.deep(st, x, d + 1) for x in v[1]))
        if k == 'en':
            return ('en', v[1], tuple(self.deep(st, x, d + 1) for x in v[2]))
        if k == 'box':
            return self.deep(st, v[1], d + 1)
        if k == 'str':
            return v
        return v

    def mutref(self, ty, depth=0):
        """can a value of this type be written through?"""
        t = self.prog.ty(ty) if ty is not None and ty >= 0 else {}
        k = t.get("k")
        if k in ("ref", "ptr"):
            return bool(t.get("mut")) or (depth < 3 and self.mutref(t.get("e", -1), depth + 1))
        if k in ("bool", "char", "int", "uint", "float", "str", "never", "fndef"):
            return False
        if k in ("slice", "array"):
            return self.mutref(t.get("e", -1), depth + 1)
        if k in ("tuple", "closure"):
            return any(self.mutref(f, depth + 1) for f in t["f"])
        if k == "adt":
            if t.get("v") and depth < 4:
                return any(self.mutref(f["t"], depth + 1) for v in t["v"] for f in v["f"])
            return any(self.mutref(a, depth + 1) for a in t.get("args", []) if isinstance(a, int))
        return True

    def opaque_call(self, st, c):
        self.opaque.add(c.path)
        self.event(st, c.node, 'opaque', call=c)
        node = c.node
        mut = [self.mutref(t) for t in c.argtys] if c.argtys else [True] * len(c.args)
        if self.models.is_panic(c):
            self.panic(st, node, "call:" + c.path)
        if c.target is None:
            return []
        fid = c.callee.get("fn") if c.callee else None
        pure = not any(mut) and ((fid is not None and self.prog.fn(fid).local and not self.touches(fid)) or self.models.is_pure(c))
        if pure:
            key = ('app', c.full, tuple(self.deep(st, v) for v in c.args))
            deps = EMPTY
            for x in key[2]:
                deps = deps | vsyms(x)
            v = self.unk2(key, c.destty, tuple(deps))
            return [(st, v)]
        for i, v in enumerate(c.args):
            if i < len(mut) and mut[i]:
                t = c.argtys[i] if c.argtys and i < len(c.argtys) else -1
                if fid is not None and v is not None and v[0] == 'ref' and self.prog.fn(fid).local:
                    fs = self.modfields(fid, i + 1)
                    if fs is not None and self.havoc_fields(st, node, v, i, t, fs):
                        continue
                self.havoc_ref(st, node, v, i, t)
        v = self.fresh(st, node, 'ret', c.destty)
        if v[0] == 'u':
            t = self.prog.ty(c.destty)
            if t.get("k") in ("ref", "ptr"):
                META.setdefault(v[1], {'pt': t.get("e", -1)})
        # provenance of the result: which call produced it
        for s in vsyms(v):
            if KEY[s][0] == 'site':
                META.setdefault(s, {}).setdefault('call', (c.full, tuple(self.deep(st, a) for a in c.args) if self.opts.get('prov') else ()))
        return [(st, v)]


class Rule:
    """base class; a rule observes events and keeps its automaton in st.gh and ('g',name) memory"""
    eng = None

    def start(self, st):
        pass

    def on_event(self, st, node, kind, info):
        pass

    def on_switch(self, st, node, to):
        pass

    def on_push(self, st, node):
        pass

    def on_assume(self, st, b):
        pass

    def on_return(self, st, node, fn, v, top):
        pass

    def on_panic(self, st, node, what):
        pass

    def inline(self, fn):
        return None

    def model(self, eng, st, c):
        return None

    eqsub = False
    elements = False        # wants to see loads and stores of elements
    relations = ()
    tracked = ()

    def keep_through(self, st, cur, ref):
        return False

    def report(self, key, msg):
        if self.eng.reporting:
            self.eng.reports.setdefault(key, msg)
