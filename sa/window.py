"""C31: what the sliding window holds and where a match is copied from.

Positions in the window are compared modulo its size.  For every place of the program that takes part in an index ('home') a shadow Q is kept, an
integer congruent to the value of the home that never wraps, so that the linear invariants of the engine apply to it; D is the home's value less
its shadow, a multiple of the window size."""
from values import *
import models
from engine import AX

from codecs_ import optfield, Anchor
from codes import Lengths
from rules import IN, OUT

MODOPS = ("Rem", "rem_euclid")
HUGE = 1 << 40


class Window(Lengths):
    elements = True
    V, SK, P, LD, W, R, F, N, V0 = (('g', 'w' + x) for x in ("stored", "skew", "position", "load", "written", "byte", "filled", "read", "stored0"))
    tracked = (Lengths.G, V)
    counters = {"loads": "window_loads", "stores": "window_stores", "fills": "fill_stores", "gets": "symbol_reads", "puts": "symbol_writes", "writes": "expanded_writes"}

    def __init__(self, homes=()):
        super().__init__()
        self.homes, self.found = sorted(homes), set(homes)
        self.loads, self.stores, self.fills = set(), set(), set()
        self.begun = False

    def report(self, key, msg):
        if len(key) > 1 and str(key[1]).startswith("w-"):
            super().report(key, msg)

    def rep(self, what, node, msg):
        self.report((self.entry, "w-" + what, self.eng.srcfn(node)), "%s: %s" % (self.entry, msg % self.eng.srcspan(node)))

    def start(self, st):
        super().start(st)
        e = self.eng
        if self.spec["opts"]:
            n = optfield(e, self.entryfn, "window_size")
            self.n, self.nsym = None, n[2][0][0]
            self.fillv = optfield(e, self.entryfn, "precursor")
            e.assume(st, C('le', sub(n, L(1 << 30))), False)
            e.assume(st, C('le', sub(add(self.look, self.look), n)), False)
            self.size = n
        else:
            self.n, self.nsym = 4096, None
            self.size, self.fillv = L(4096), L(0x20)
            e.limits = e.limits | {self.n - 1}
        self.begin = sub(self.size, self.look)
        e.octagon = self.spec["dir"] == "compress" and bool(self.spec["opts"] and self.homes)
        for g in (self.V, self.SK, self.P, self.F, self.N, self.V0):
            st.mem[g] = ZERO
        st.mem[self.LD] = st.mem[self.W] = st.mem[self.R] = ('agg', (None, ZERO, ZERO))
        e.signed = e.signed | {self.SK}
        for h in range(len(self.homes)):
            e.signed = e.signed | {('g', x, h) for x in ('wq', 'wd', 'wd0', 'wx')}
        self.relations = list(self.relations)
        for h in range(len(self.homes)):
            self.relations.append(lambda s, h=h: self.shadow(s, h))

    # ---------------------------------------------------------------- homes and shadows
    def chain(self, fr):
        e, r = self.eng, []
        while fr is not None:
            par, blk, fnid, _, _ = e.frames[fr]
            r.append((-1 if blk is None else blk, e.prog.fn(fnid).path))
            fr = par
        return tuple(reversed(r))

    def at(self, st, h):
        """the value at a home, if its frame is there"""
        ch, local, rest = self.homes[h]
        e = self.eng
        fr = None
        for blk, path in ch:
            ids = [i for i in e.prog.find(path)]
            nx = None
            for i in ids:
                nx = e.frameix.get((fr, None if blk < 0 else blk, i))
                if nx is not None:
                    break
            if nx is None:
                return None
            fr = nx
        v = st.mem.get(('l', fr, local))
        for n in rest:
            if v is None:
                return None
            if v[0] in ('agg', 'arr') and isinstance(n, int) and n < len(v[1]):
                v = v[1][n]
            elif v[0] == 'en' and isinstance(n, int) and n < len(v[2]):
                v = v[2][n]
            else:
                return None
        return v if v is not None and v[0] == 'L' else None

    def shadow(self, s, h):
        x, q, d = self.at(s, h), s.mem.get(('g', 'wq', h)), s.mem.get(('g', 'wd', h))
        if x is None or q is None or d is None or q[0] != 'L' or d[0] != 'L':
            return None
        return C('eq', sub(sub(x, q), d))

    def on_push(self, st, node):
        exp = self.spec["dir"] == "expand"
        rest = []
        base = self.place(st, st.mem[self.V] if exp else sub(st.mem[self.N], st.mem[self.G]))

        def to(h, new, x):
            st.mem['g', 'wq', h], st.mem['g', 'wd', h], st.mem['g', 'wx', h] = new, sub(x, new), x
        for h in range(len(self.homes)):
            x = self.at(st, h)
            Q, D = ('g', 'wq', h), ('g', 'wd', h)
            if x is None:
                for g in (Q, D, ('g', 'wx', h)):
                    st.mem.pop(g, None)
                continue
            if st.mem.get(D) in (None, ZERO) and not self.wraps(x):
                to(h, x, x)
                continue
            rest.append((h, x))
        # those that move with the bytes stored first: the others may be counted from them
        late = []
        for h, x in rest:
            q = st.mem.get(('g', 'wq', h))
            for b in (base, q) if exp else (q, base):
                k = next((k for k in (0, 1, -1) if self.cong(st, sub(x, add(b, L(k))))), None) if b is not None and b[0] == 'L' else None
                if k is not None:
                    late.append((h, add(b, L(k)), x))
                    break
            else:
                late.append((h, None, x))
        olds = [(x, st.mem.get(('g', 'wd', h))) for h, x in ((h, st.mem.get(('g', 'wx', h))) for h in range(len(self.homes))) if x is not None]
        done = []
        for h, new, x in late:
            if new is not None:
                to(h, new, x)
                done.append((x, st.mem['g', 'wd', h]))
        for h, new, x in late:
            if new is None:
                y = self.shadowed(self.unwrap(x), done + olds)
                if self.n:      # as near to the end of the window as it gets
                    c = sub(y, base)[1]
                    y = add(y, L((c + self.n // 2) % self.n - self.n // 2 - c))
                else:
                    y = add(y, self.size, -dict(sub(y, base)[2]).get(self.nsym, 0))
                to(h, y, x)

    def wraps(self, v):
        return v[0] == 'L' and any(self.inner(KEY[s]) is not None or self.n and k % self.n == 0 for s, k in v[2])

    def shadowed(self, y, known):
        """y with the values of homes replaced by their shadows"""
        for x, d in known:
            if d is not None and x[0] == d[0] == 'L' and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1:
                k = dict(y[2]).get(x[2][0][0], 0)
                if k:
                    y = add(y, d, -k)
        return y

    def note(self, v):
        """the places an index is made of"""
        if v is None or v[0] != 'L':
            return
        for s, _ in v[2]:
            k = KEY[s]
            if k[0] == 'phi' and isinstance(k[2], tuple) and k[2][0][0] == 'l' and len(k[2][0]) == 3:
                b = k[2][0]
                if all(isinstance(n, int) for n in k[2][1:]):
                    self.found.add((self.chain(b[1]), b[2], tuple(k[2][1:])))

    # ---------------------------------------------------------------- arithmetic modulo the size of the window
    def unwrap(self, v, depth=0):
        """an expression congruent to v without the operations that wrap"""
        if v[0] != 'L' or depth > 12:
            return v
        n, c = self.n, v[1]
        r = L(c % n if n else c)
        for s, k in v[2]:
            if n and k % n == 0 or s == self.nsym:
                continue
            x = self.inner(KEY[s])
            r = add(r, self.unwrap(x, depth + 1), k) if x is not None else add(r, Ls(s), k)
        return L(r[1] % n, tuple((s, k) for s, k in r[2] if k % n)) if n else r

    def issize(self, x):
        return x == self.n if isinstance(x, int) else x is not None and x == self.size

    def inner(self, k):
        if k[0] != 'op':
            return None
        if k[1] in MODOPS and self.issize(k[3]):
            return k[2]
        if self.n:
            if k[1] == 'BitAnd':
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if b == L(self.n - 1) and a[0] == 'L':
                        return a
            if k[1] in ('wrapAdd', 'wrapSub') and k[2][0] == 'L' and k[3][0] == 'L':
                return add(k[2], k[3]) if k[1] == 'wrapAdd' else sub(k[2], k[3])
            if k[1] == 'cast' and k[2][0] == 'L':
                return k[2]
        return None

    def cong(self, st, x):
        """is x a multiple of the window's size"""
        e = self.eng
        x = self.unwrap(x)
        ds = []
        for h in range(len(self.homes)):
            for g in ('wd', 'wd0'):
                d = st.mem.get(('g', g, h))
                d = self.unwrap(d) if d is not None and d[0] == 'L' else ZERO
                if d != ZERO and d not in ds:
                    ds.append(d)
        cand = [ZERO]
        for d in ds:
            cand += [d, scale(d, -1)]
        for i, a in enumerate(ds):
            for b in ds[i + 1:]:
                cand += [add(a, b), sub(a, b), sub(b, a), scale(add(a, b), -1)]
        for d in cand:
            y = sub(x, d)
            if self.n and y[1] % self.n == 0 and not y[2] or y == ZERO:
                return True
            for k in (0, 1, -1):
                if e.entails(st, C('eq', sub(y, scale(self.size, k)))):
                    return True
        return False

    # ---------------------------------------------------------------- the window
    def iswindow(self, base, path):
        p = self.eng.prog
        for x in reversed(path[:-1]):
            if x[0] == 'f':
                return p.tystr(x[2]).startswith("std::vec::Vec<u8")
        if base[0] == 'l':
            t = self.eng.fnof(base[1]).locals[base[2]]
            return p.tystr(t).startswith("std::vec::Vec<u8")
        return False

    def on_load(self, st, node, base, path, ty, v):
        if not self.iswindow(base, path):
            return v
        e = self.eng
        if v is None or v[0] != 'L':
            v = e.fresh(st, node, 'winelem', ty)
        ix = path[-1][1]
        # the byte number that is wanted now, and whether this is where it is
        n = sub(st.mem[self.N], st.mem[self.G]) if self.spec["dir"] == "compress" else st.mem[self.V]
        src = n if self.spec["dir"] == "compress" else sub(sub(n, ONE), st.mem[self.P])
        st.mem[self.LD] = ('agg', (v, L(int(self.inside(st, ix) and self.cong(st, sub(ix, self.place(st, src))))), n))
        self.note(self.unwrap(ix))
        self.loads.add(e.srcspan(node))
        return v

    def val(self, v):
        return v

    def same2(self, st, a, b):
        if a is None or b is None:
            return False
        return a == b or a[0] == 'L' and b[0] == 'L' and self.eng.entails(st, C('eq', sub(a, b)))

    def inside(self, st, ix):
        return self.eng.entails(st, C('le', add(sub(ix, self.size), ONE)))

    def place(self, st, n):
        """the place of byte number n"""
        return add(self.begin, n)

    def on_store(self, st, node, base, path, v):
        if not self.iswindow(base, path):
            return
        e = self.eng
        ix = path[-1][1]
        self.note(self.unwrap(ix))
        if 'begun' not in st.gh:
            self.fills.add(e.srcspan(node))
            f = st.mem[self.F]
            if not self.inside(st, ix) or not self.cong(st, sub(ix, f)):
                self.rep('fill-place', node, "the window may not be filled from its start on by the store at %s")
            if not self.same2(st, v, self.fillv):
                self.rep('fill-value', node, "what is stored at %s before any input is read is not the fill byte")
            st.mem[self.F] = add(f, ONE)
            return
        self.stores.add(e.srcspan(node))
        n = st.mem[self.V]
        if self.spec["dir"] == "compress":
            last = st.mem[self.R][1][0]
            if self.same2(st, v, last) and not self.same2(st, n, st.mem[self.N]) and self.inside(st, ix) and self.cong(st, sub(ix, self.place(st, n))):
                st.mem[self.V] = add(n, ONE)
            elif not (self.same2(st, v, last) and self.cong(st, sub(ix, self.place(st, sub(n, ONE))))):
                if not self.same2(st, v, last):
                    self.rep('byte', node, "what is stored in the window at %s may not be the byte read last")
                else:
                    self.rep('place', node, "the byte stored in the window at %s may not follow the one before")
            return
        if not self.inside(st, ix) or not self.cong(st, sub(ix, self.place(st, n))):
            self.rep('place', node, "the byte stored in the window at %s may not follow the one before")
        sk = st.mem[self.SK]
        if self.eq(st, sk, ONE):
            if not self.same2(st, v, st.mem[self.W][1][0]):
                self.rep('byte', node, "what is stored in the window at %s may not be the byte written")
        elif self.eq(st, sk, ZERO) and not self.right(st, v):
            self.rep('copy', node, "what is stored in the window at %s may be neither the literal nor the byte the match is at")
        st.mem[self.W] = ('agg', (v, ZERO, ZERO))
        st.mem[self.V], st.mem[self.SK] = add(n, ONE), self.settle(st, sub(sk, ONE))

    def eq(self, st, a, b):
        return self.eng.entails(st, C('eq', sub(a, b)))

    def settle(self, st, x):
        return ZERO if self.eq(st, x, ZERO) else x

    def right(self, st, v):
        """is v the next byte the symbol stands for"""
        m = st.gh.get('mode')
        if m == 'lit':
            return self.same2(st, v, st.mem[self.LIT])
        lv, good, at = st.mem[self.LD][1]
        return m == 'copy' and self.same2(st, v, lv) and self.eq(st, at, st.mem[self.V]) and self.eq(st, good, ONE)

    # ---------------------------------------------------------------- events
    def open(self, st, node):
        """the first symbol or byte: the window has to be filled by now"""
        if 'begun' in st.gh:
            return
        st.gh['begun'] = True
        if not self.eng.entails(st, C('le', sub(self.begin, st.mem[self.F]))):
            self.rep('unfilled', node, "the window may not have been filled when the first symbol or byte is read at %s")

    def get(self, st, node, kind, v):
        if kind == 'pos':
            st.mem[self.P] = v
            st.mem[self.V0] = st.mem[self.V]
            for h in range(len(self.homes)):
                d = st.mem.get(('g', 'wd', h))
                if d is not None:
                    st.mem[('g', 'wd0', h)] = d
        else:
            self.open(st, node)
            if not self.eq(st, st.mem[self.SK], ZERO):
                self.rep('missed', node, "a symbol is read at %s although the window may lack bytes that have been written")
        return super().get(st, node, kind, v)

    def put(self, st, node, kind, v):
        e = self.eng
        if kind == 'sym' and v is not None and v[0] == 'L':
            if not self.eq(st, st.mem[self.N], st.mem[self.V]):
                self.rep('missed', node, "a symbol is written at %s although the window may lack bytes that have been read")
            a = st.copy()
            if e.assume(a, C('le', sub(v, L(255)))):
                lv, good, at = a.mem[self.LD][1]
                if not self.same2(a, v, lv):
                    self.rep('literal', node, "the literal written at %s may not be what the window holds")
                elif not self.eq(a, good, ONE) or not self.eq(a, at, sub(a.mem[self.N], a.mem[self.G])):
                    self.rep('literal', node, "the literal written at %s may not be the first byte not coded yet")
        return super().put(st, node, kind, v)

    def on_event(self, st, node, kind, info):
        if self.G in st.mem and self.spec["dir"] == "compress" and info.get('stream') == IN and kind == 'read':
            self.open(st, node)
            d = info.get('data')
            es = models.elems(self.eng, st, d) if d is not None else None
            st.mem[self.R] = ('agg', (es[0] if es and len(es) == 1 else None, ZERO, ZERO))
            st.mem[self.N] = add(st.mem[self.N], info['n'])
        super().on_event(st, node, kind, info)
        if self.G in st.mem and self.spec["dir"] == "expand" and kind == 'write' and info.get('stream') == OUT and st.gh.get('mode') in ('lit', 'copy'):
            sk = st.mem[self.SK]
            d = info['data']
            es = models.elems(self.eng, st, d) if d is not None else None
            w = es[0] if es is not None and len(es) == 1 else None
            if w is not None:
                if self.eq(st, sk, ZERO):
                    if not self.right(st, w):
                        self.rep('copy', node, "what is written at %s may be neither the literal nor the byte the match is at")
                elif self.eq(st, sk, L(-1)) and not self.same2(st, w, st.mem[self.W][1][0]):
                    self.rep('copy', node, "what is written at %s may not be the byte stored in the window")
            st.mem[self.W] = ('agg', (w, ZERO, ZERO))
            st.mem[self.SK] = self.settle(st, add(sk, info['n']))

    def model(self, eng, st, c):
        if c.method == "rem_euclid" and len(c.args) == 2 and all(a is not None and a[0] == 'L' for a in c.args) and eng.entails(st, C('le', sub(ONE, c.args[1]))):
            a, b = c.args
            if isconst(b) and eng.bounds(st, a)[0] >= 0:
                return [(st, eng.mod(st, a, b[1]))]
            s = sym(('op', 'rem_euclid', a, b), (0, HUGE), tuple(vsyms(a) | vsyms(b)))
            AX.setdefault(s, [C('le', add(sub(Ls(s), b), ONE))])
            return [(st, Ls(s))]
        if self.spec["dir"] == "compress" and 'ended' in st.gh and c.method == "next" and "std::io::Bytes" in c.full:
            return [(st, models.NONE)]      # a stream that has ended stays so
        if c.method == "fill" and c.path.startswith("core::slice") and 'begun' not in st.gh:
            sl = models.as_slice(eng, st, c.args[0])
            if sl is not None and sl[0] == 'sl' and sl[3] == ZERO and self.same2(st, c.args[1], self.fillv):
                st.mem[self.F] = sl[4]
        if c.path == "std::vec::from_elem" and 'begun' not in st.gh and self.same2(st, c.args[0], self.fillv) and self.issize2(st, c.args[1]):
            st.mem[self.F] = c.args[1]
        return super().model(eng, st, c)

    def issize2(self, st, v):
        return v is not None and v[0] == 'L' and self.eng.entails(st, C('le', sub(self.begin, v)))
