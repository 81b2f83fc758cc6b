"""The bit engine: abstract interpretation of MIR in the domain of affine functions over GF(2).

Every bit of every integer is an affine function of symbolic input bits (atoms), or unknown.  A bit is a
Python integer used as a set: element 0 is the constant 1, element k the atom k; xor is addition.  None is
an unknown bit.  An integer all of whose bits are constant is kept as a plain Python int (two's complement
as unsigned).  Memory is a map from objects to immutable trees.

Where control depends on a bit that is not constant both successors are interpreted up to the point where they
meet again and the two states are joined there: a bit that differs is, if possible, expressed as an affine
function that is right on both sides, otherwise it becomes unknown.  States that cannot be joined because their
shapes differ are kept apart, with the assumption that led to each.
"""

LIMIT = 40000          # blocks per function execution
MAXOUT = 600


class Unsupported(Exception):
    """the construct is outside what the bit engine knows: no answer"""


class NoJoin(Exception):
    pass


# ---------------------------------------------------------------- bits
def nbits(v, n):
    """bits of v, least significant first"""
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(n)]
    return list(v[:n]) + [0] * (n - len(v)) if len(v) != n else list(v)


def mk(bits):
    r = 0
    for i, b in enumerate(bits):
        if b is None or b > 1:
            return tuple(bits)
        r |= b << i
    return r


def bxor(a, b):
    return None if a is None or b is None else a ^ b


def bnot(a):
    return None if a is None else a ^ 1


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a == b ^ 1:
        return 0
    return None


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    return bnot(band(bnot(a), bnot(b)))


def maj(a, b, c):
    """carry"""
    if a == b:
        return a if a is not None else None
    if a == c and a is not None:
        return a
    if b == c and b is not None:
        return b
    for x, y, z in ((a, b, c), (b, a, c), (c, a, b)):
        if x == 0:
            return band(y, z)
        if x == 1:
            return bor(y, z)
    return None


def addb(a, b, c=0):
    out = []
    for x, y in zip(a, b):
        s = bxor(bxor(x, y), c)
        c = maj(x, y, c)
        out.append(s)
    return out, c


def sext(b, n, signed):
    if len(b) >= n:
        return b[:n]
    return b + [b[-1] if signed else 0] * (n - len(b))


class Top:
    """anything"""

    def __repr__(self):
        return "T"


TOP = Top()


def UNIT():
    return ('a', ())


class St:
    __slots__ = ("mem", "eqs")

    def __init__(self, mem=None, eqs=()):
        self.mem = mem if mem is not None else {}
        self.eqs = eqs

    def copy(self):
        return St(dict(self.mem), self.eqs)


def reduce(m, eqs):
    """normal form of bit m under the assumptions"""
    if m is None or m <= 1:
        return m
    for p, e in eqs:
        if m & p:
            m ^= p ^ e
    return m


class Bits:
    def __init__(self, prog):
        self.prog = prog
        self.nframe = 0
        self.natom = 0
        self.panics = {}
        self.unmodelled = set()
        self.steps = 0
        self.used = set()
        self.pdom = {}
        self.tcache = {}
        self.depth = 0
        self.calls = set()

    # ---------------------------------------------------------------- atoms
    def atom(self):
        self.natom += 1
        return 1 << self.natom

    def atoms(self, n):
        return mk([self.atom() for _ in range(n)])

    # ---------------------------------------------------------------- types
    def ity(self, t):
        """(bits, signed) or None"""
        r = self.tcache.get(t, 0)
        if r == 0:
            ty = self.prog.ty(t)
            k = ty.get("k")
            r = (1, False) if k == "bool" else (ty["bits"], k == "int") if k in ("uint", "int") else (21, False) if k == "char" else None
            self.tcache[t] = r
        return r

    def s(self, t):
        return self.prog.ty(t).get("s", "?")

    def pty(self, fn, place):
        t = fn.locals[place[0]]
        for e in place[1]:
            if e == "*":
                ty = self.prog.ty(t)
                t = ty.get("e", -1) if ty.get("k") in ("ref", "ptr") else (ty.get("args") or [-1])[0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = self.prog.ty(t).get("e", -1)
            elif e[0] == "o":
                t = e[1]
        return t

    def oty(self, fn, o):
        return self.pty(fn, o[1]) if o[0] in ("cp", "mv") else o[1]["t"] if o[0] == "k" else None

    # ---------------------------------------------------------------- memory
    def get(self, st, obj, path):
        v = st.mem.get(obj)
        for e in path:
            v = self.sub(v, e)
        return v

    def sub(self, v, e):
        if e.__class__ is tuple:          # downcast
            return v
        if v is None or v is TOP:
            return TOP
        k = v[0]
        if k in ('a', 'v'):
            return v[1][e] if e < len(v[1]) else TOP
        if k == 'e':
            return v[2][e] if e < len(v[2]) else TOP
        if k == 'box':
            return v[1]
        raise Unsupported("projection of %s" % (k,))

    def put(self, st, obj, path, val):
        if not path:
            st.mem[obj] = val
        else:
            st.mem[obj] = self.setin(st.mem.get(obj), path, 0, val)

    def setin(self, v, path, i, val):
        if i == len(path):
            return val
        e = path[i]
        if e.__class__ is tuple:
            if v is None or v is TOP or v[0] != 'e':
                v = ('e', e[1], ())
            return self.setin(v, path, i + 1, val)
        if v is TOP:
            return TOP
        if v is None:
            v = ('a', ())
        k = v[0]
        if k == 'box':
            return ('box', self.setin(v[1], path, i + 1, val))
        fs = v[2] if k == 'e' else v[1]
        if e >= len(fs):
            fs = fs + (None,) * (e + 1 - len(fs))
        fs = fs[:e] + (self.setin(fs[e], path, i + 1, val),) + fs[e + 1:]
        return ('e', v[1], fs) if k == 'e' else (k, fs)

    def place(self, st, fr, fn, place):
        """-> (obj, path) or ('sl', obj, path, start, n) for an unsized place"""
        obj, path = (fr, place[0]), ()
        sl = None
        for e in place[1]:
            if e == "*":
                v = self.get(st, obj, path) if sl is None else sl
                if v is None or v is TOP:
                    raise Unsupported("dereference of an unknown pointer in %s" % fn.path)
                if v[0] == 'r':
                    obj, path, sl = v[1], v[2], None
                elif v[0] in ('sl', 'str'):
                    sl = v
                elif v[0] == 'box':
                    path = path + (0,)
                else:
                    raise Unsupported("dereference of %s" % v[0])
                continue
            k = e[0]
            if k == "f":
                path = path + (e[1],)
            elif k == "d":
                path = path + (('v', e[1]),)
            elif k == "i" or k == "c":
                if k == "i":
                    ix = st.mem.get((fr, e[1]))
                else:
                    ix = e[1]
                if sl is not None:
                    if k == "c" and e[3]:
                        ix = sl[4] - e[1]
                    if not isinstance(ix, int):
                        return ('ix', sl[1], sl[2], sl[3], sl[4], ix)
                    obj, path, sl = sl[1], sl[2] + (sl[3] + ix,), None
                else:
                    if k == "c" and e[3]:
                        n = len(self.get(st, obj, path)[1])
                        ix = n - e[1]
                    if not isinstance(ix, int):
                        n = len(self.get(st, obj, path)[1])
                        return ('ix', obj, path, 0, n, ix)
                    path = path + (ix,)
            elif k == "s":
                a, b, fromend = e[1], e[2], e[3]
                if sl is None:
                    n = len(self.get(st, obj, path)[1])
                    sl = ('sl', obj, path, 0, n)
                n = sl[4] - a - b if fromend else b - a
                sl = ('sl', sl[1], sl[2], sl[3] + a, n)
            elif k == "o":
                pass
            else:
                raise Unsupported("place projection %s" % (e,))
        if sl is not None:
            return sl
        return (obj, path)

    def load(self, st, fr, fn, place):
        if not place[1]:
            return st.mem.get((fr, place[0]))
        p = self.place(st, fr, fn, place)
        if len(p) == 2:
            v = self.get(st, p[0], p[1])
            return v
        if p[0] == 'ix':
            return self.lookup(st, p)
        return p

    def lookup(self, st, p):
        """element of a table at an index that is not constant"""
        _, obj, path, start, n, ix = p
        arr = self.get(st, obj, path)
        el = arr[1][start:start + n]
        return self.table(st, el, ix)

    def table(self, st, el, ix):
        if ix is TOP:
            raise Unsupported("index with an unknown value")
        free = [(i, b) for i, b in enumerate(ix)]
        # enumerate what the symbolic index can be: affine space spanned by its bits
        base = [reduce(b, st.eqs) for _, b in free]
        if any(b is None for b in base):
            if all(isinstance(x, int) for x in el):
                # unknown index: what all elements have in common
                r = None
                for x in el:
                    r = nbits(x, 64) if r is None else [a if a == b else None for a, b in zip(r, nbits(x, 64))]
                return tuple(r)
            raise Unsupported("index with unknown bits")
        ats = []
        for b in base:
            m = b & ~1
            while m:
                l = m & -m
                if l not in ats:
                    ats.append(l)
                m ^= l
        # independent generators only
        piv, ech = [], []
        for b in base:
            m = b & ~1
            for p, e in ech:
                if m & p:
                    m ^= e
            if m:
                p = m & -m
                ech = [(q, f ^ m if f & p else f) for q, f in ech] + [(p, m)]
                piv.append(p)
        if len(piv) > 10:
            raise Unsupported("index with %d free bits" % len(piv))

        def at(assign):
            x = 0
            for i, b in enumerate(base):
                v = b & 1
                m = b & ~1
                for p, e in ech:
                    # express m in the echelon basis
                    if m & p:
                        m ^= e
                        v ^= assign[p]
                x |= (v & 1) << i
            return x
        vals = {}
        k = len(ech)
        ps = [p for p, _ in ech]
        for c in range(1 << k):
            x = at({p: (c >> j) & 1 for j, p in enumerate(ps)})
            if x >= len(el):
                raise Unsupported("index may be out of range")
            y = el[x]
            if not isinstance(y, int):
                raise Unsupported("table of symbolic values")
            vals[c] = y
        # affine fit over the basis functions
        c0 = vals[0]
        slope = [vals[1 << j] ^ c0 for j in range(k)]
        w = max(v.bit_length() for v in vals.values())
        bits = []
        for i in range(max(w, 1)):
            ok = True
            for c in range(1 << k):
                f = (c0 >> i) & 1
                for j in range(k):
                    if (c >> j) & 1:
                        f ^= (slope[j] >> i) & 1
                if f != (vals[c] >> i) & 1:
                    ok = False
                    break
            if ok:
                m = (c0 >> i) & 1
                for j, (p, e) in enumerate(ech):
                    if (slope[j] >> i) & 1:
                        m ^= e
                bits.append(m)
            else:
                bits.append(None)
        return mk(bits + [0] * (64 - len(bits)))

    def store(self, st, fr, fn, place, v):
        if not place[1]:
            st.mem[(fr, place[0])] = v
            return
        p = self.place(st, fr, fn, place)
        if len(p) == 2:
            self.put(st, p[0], p[1], v)
        elif p[0] == 'ix':
            # weak update
            arr = self.get(st, p[1], p[2])
            n = len(arr[1])
            self.put(st, p[1], p[2], (arr[0], (TOP,) * n))
        else:
            raise Unsupported("store to an unsized place")

    # ---------------------------------------------------------------- constants
    def const(self, st, c):
        k = c["k"]
        if k == "int":
            v = c["v"]
            t = self.ity(c["t"])
            return v & ((1 << t[0]) - 1) if t else v
        if k == "agg":
            t = self.prog.ty(c["t"])
            vs = tuple(self.const(st, x) for x in c["v"])
            if t.get("k") == "adt" and t.get("kind") == "enum":
                return ('e', c.get("vi", 0), vs)
            return ('a', vs)
        if k == "str":
            return ('str', c["v"])
        if k == "refto":
            key = ('K', id(c))
            if key not in st.mem:
                st.mem[key] = self.const(st, c["v"])
            v = st.mem[key]
            t = self.prog.ty(c["t"])
            if self.prog.ty(t.get("e", -1)).get("k") == "slice":
                return ('sl', key, (), 0, len(v[1]))
            return ('r', key, ())
        if k == "slice":
            key = ('K', id(c))
            if key not in st.mem:
                st.mem[key] = ('a', tuple(self.const(st, x) if isinstance(x, dict) else x for x in c["v"]))
            return ('sl', key, (), 0, len(st.mem[key][1]))
        return TOP

    def operand(self, st, fr, fn, o):
        k = o[0]
        if k == "cp" or k == "mv":
            v = self.load(st, fr, fn, o[1])
            if v.__class__ is tuple and v and (v[0].__class__ is int or v[0] is None):
                # normalise the width of table values
                t = self.ity(self.pty(fn, o[1]))
                if t and len(v) != t[0]:
                    return mk((v + (0,) * t[0])[:t[0]])
            return v
        if k == "k":
            return self.const(st, o[1])
        if k == "rt":
            return 1 if o[1] == "OverflowChecks" else 0
        raise Unsupported("operand")

    # ---------------------------------------------------------------- arithmetic
    def isint(self, v):
        return v.__class__ is int or (v.__class__ is tuple and len(v) > 0 and (v[0] is None or v[0].__class__ is int))

    def binop(self, st, op, a, b, t, rt):
        """a op b where a has integer type t = (bits, signed)"""
        if a is TOP or b is TOP or not self.isint(a) or not self.isint(b):
            if op in ("Eq", "Ne") and not (a is TOP or b is TOP) and a is not None and b is not None:
                # pointers or such
                return (None,)
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return (None,)
            if op.endswith("WithOverflow"):
                return ('a', (TOP, (None,)))
            return TOP
        n, sg = t
        if a.__class__ is int and b.__class__ is int:
            return self.cbin(op, a, b, n, sg, rt)
        eqs = st.eqs
        x = [reduce(m, eqs) for m in nbits(a, n)]
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if b.__class__ is not int:
                return (None,) * n
            b %= n
            if op.startswith("Shl"):
                return mk([0] * b + x[:n - b])
            return mk(x[b:] + [x[-1] if sg else 0] * b)
        y = [reduce(m, eqs) for m in nbits(b, n)]
        if op == "BitAnd":
            return mk([band(p, q) for p, q in zip(x, y)])
        if op == "BitOr":
            return mk([bor(p, q) for p, q in zip(x, y)])
        if op == "BitXor":
            return mk([bxor(p, q) for p, q in zip(x, y)])
        if op in ("Eq", "Ne"):
            r = self.eq(x, y)
            return mk([r if op == "Eq" else bnot(r)])
        if op in ("Lt", "Le", "Gt", "Ge"):
            if sg:
                x, y = x[:-1] + [bnot(x[-1])], y[:-1] + [bnot(y[-1])]
            if op in ("Lt", "Ge"):
                r = self.lt(x, y)
            else:
                r = self.lt(y, x)
            if op in ("Le", "Ge"):
                r = bnot(r)
            return mk([r])
        if op in ("Add", "Sub", "AddUnchecked", "SubUnchecked", "AddWithOverflow", "SubWithOverflow"):
            sub = op.startswith("Sub")
            xe, ye = sext(x, n + 1, sg), sext(y, n + 1, sg)
            if sub:
                ye = [bnot(q) for q in ye]
            s, _ = addb(xe, ye, 1 if sub else 0)
            r = mk(s[:n])
            if op.endswith("WithOverflow"):
                ov = bxor(s[n], s[n - 1]) if sg else s[n]
                return ('a', (r, mk([ov])))
            return r
        if op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            if a.__class__ is int:
                a, b, x = b, a, y
            acc, ov = None, 0
            if b.__class__ is int and b and (b & (b - 1)) == 0:
                k = b.bit_length() - 1
                acc = [0] * k + x[:n - k]
                hi = x[n - k:]
                ov = 0 if all(h == 0 for h in hi) and not sg else None
            elif b.__class__ is int and b == 0:
                acc = [0] * n
            elif b.__class__ is int:
                w = [0] * (2 * n)
                for k in range(n):
                    if (b >> k) & 1:
                        w, _ = addb(w, [0] * k + x + [0] * (n - k))
                acc = w[:n]
                ov = 0 if all(h == 0 for h in w[n:]) and not sg else None
            else:
                acc, ov = [None] * n, None
            r = mk(acc)
            return ('a', (r, mk([ov]))) if op.endswith("WithOverflow") else r
        if op in ("Div", "Rem") and b.__class__ is int and b and (b & (b - 1)) == 0 and (not sg or x[-1] == 0):
            k = b.bit_length() - 1
            return mk(x[k:] + [0] * k) if op == "Div" else mk(x[:k] + [0] * (n - k))
        if op in ("Div", "Rem"):
            return (None,) * n
        raise Unsupported("operation %s" % op)

    def eq(self, x, y):
        diff = [bxor(p, q) for p, q in zip(x, y)]
        if any(d == 1 for d in diff):
            return 0
        diff = [d for d in diff if d != 0]
        r = 1
        for d in diff:
            r = band(r, bnot(d))
        return r

    def lt(self, x, y):
        bw = 0
        for p, q in zip(x, y):
            # borrow of p - q - bw
            if p == q and p is not None:
                continue
            bw = maj(bnot(p), q, bw)
        return bw

    def cbin(self, op, a, b, n, sg, rt):
        M = (1 << n) - 1

        def s(v):
            return v - (1 << n) if sg and v >> (n - 1) else v
        if op == "BitXor":
            return a ^ b
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op in ("Shl", "ShlUnchecked"):
            return (a << (b % n)) & M
        if op in ("Shr", "ShrUnchecked"):
            return (s(a) >> (b % n)) & M
        if op == "Eq":
            return int(a == b)
        if op == "Ne":
            return int(a != b)
        a, b = s(a), s(b)
        if op == "Lt":
            return int(a < b)
        if op == "Le":
            return int(a <= b)
        if op == "Gt":
            return int(a > b)
        if op == "Ge":
            return int(a >= b)
        if op == "Cmp":
            return ('e', (a > b) - (a < b) + 1, ())
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o == "Add":
            r = a + b
        elif o == "Sub":
            r = a - b
        elif o == "Mul":
            r = a * b
        elif o in ("Div", "Rem"):
            if b == 0:
                return TOP
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if o == "Div" else a - q * b
        elif o == "Offset":
            raise Unsupported("pointer arithmetic")
        else:
            raise Unsupported("operation %s" % op)
        w = r & M
        return ('a', (w, int(s(w) != r))) if op.endswith("WithOverflow") else w

    def cast(self, st, kind, v, t, src):
        to = self.ity(t)
        if kind == "IntToInt" and to:
            if v is TOP or not self.isint(v):
                return TOP
            fr = self.ity(src)
            if fr is None:
                # C-like enum
                return v
            b = sext(nbits(v, fr[0]), to[0], fr[1])
            return mk(b)
        if kind.startswith("PointerCoercion(Unsize"):
            if v is not TOP and v[0] == 'r':
                if self.prog.ty(self.prog.ty(t).get("e", -1)).get("k") == "slice":
                    x = self.get(st, v[1], v[2])
                    return ('sl', v[1], v[2], 0, len(x[1]))
            return v
        if kind in ("Transmute", "PtrToPtr") or kind.startswith("PointerCoercion"):
            if to and v is not TOP and self.isint(v):
                return v
            if to and v is not TOP and v[0] == 'a':
                # array of bytes or newtype
                return self.frombytes(v[1]) if len(v[1]) * 8 == to[0] else TOP
            return v
        return TOP

    def frombytes(self, bs):
        r = []
        for b in bs:
            r += nbits(b, 8) if b is not TOP else [None] * 8
        return mk(r)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, fn, rv, dplace):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, fn, rv[1])
        if k == "bin":
            a = self.operand(st, fr, fn, rv[2])
            b = self.operand(st, fr, fn, rv[3])
            t = self.ity(self.oty(fn, rv[2]))
            if t is None:
                return TOP
            return self.binop(st, rv[1], a, b, t, None)
        if k == "ref":
            p = self.place(st, fr, fn, rv[1])
            if len(p) == 2:
                return ('r', p[0], p[1])
            if p[0] == 'ix':
                v = self.lookup(st, p)
                self.nframe += 1
                key = ('tmp', self.nframe)
                st.mem[key] = v
                return ('r', key, ())
            return p
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, fn, rv[2]), rv[3], self.oty(fn, rv[2]))
        if k == "un":
            a = self.operand(st, fr, fn, rv[2])
            if rv[1] == "PtrMetadata":
                if a is not TOP and a[0] == 'sl':
                    return a[4]
                if a is not TOP and a[0] == 'str':
                    return len(a[1].encode())
                return TOP
            t = self.ity(self.oty(fn, rv[2]))
            if a is TOP or t is None:
                return TOP
            if rv[1] == "Not":
                return mk([bnot(b) for b in nbits(a, t[0])])
            if rv[1] == "Neg":
                return self.binop(st, "Sub", 0, a, t, None)
            return TOP
        if k == "disc":
            v = self.load(st, fr, fn, rv[1])
            t = self.prog.ty(self.pty(fn, rv[1]))
            if v is TOP or v is None:
                return TOP
            if v[0] == 'e':
                if v[1].__class__ is not int:
                    return v[1]
                vs = t.get("v")
                d = vs[v[1]]["d"] if vs and v[1] < len(vs) else v[1]
                return v[1] if d is None else d & ((1 << 64) - 1)
            return TOP
        if k == "agg":
            vs = tuple(self.operand(st, fr, fn, o) for o in rv[2])
            kind = rv[1]
            if isinstance(kind, list) and kind[0] == "adt":
                t = self.prog.ty(self.pty(fn, dplace))
                if t.get("kind") == "enum":
                    return ('e', kind[1], vs)
            if kind == "rawptr":
                return TOP
            return ('a', vs)
        if k == "rep":
            v = self.operand(st, fr, fn, rv[1])
            if not isinstance(rv[2], int):
                return TOP
            return ('a', (v,) * rv[2])
        return TOP

    # ---------------------------------------------------------------- control
    def ipdom(self, fn):
        r = self.pdom.get(fn.id)
        if r is not None:
            return r
        EXIT = -1
        nodes = list(fn.rpo)
        succ = {b: [s for s in fn.succ[b]] for b in nodes}
        for b in nodes:
            if fn.blocks[b]["t"][0] == "ret":
                succ[b] = [EXIT]
        # blocks from which the function can still return
        alive = {b for b in nodes if succ[b] == [EXIT]}
        ch = True
        while ch:
            ch = False
            for b in nodes:
                if b not in alive and any(s in alive for s in succ[b]):
                    alive.add(b)
                    ch = True
        full = alive | {EXIT}
        pd = {b: set(full) for b in alive}
        pd[EXIT] = {EXIT}
        order = sorted(alive, key=lambda b: -fn.rpo[b])
        ch = True
        while ch:
            ch = False
            for b in order:
                ss = [pd[s] for s in succ[b] if s in pd]
                new = set.intersection(*ss) | {b} if ss else {b}
                if new != pd[b]:
                    pd[b] = new
                    ch = True
        r = {}
        for b in alive:
            cands = pd[b] - {b}
            # the immediate one is the one that all others postdominate
            best = EXIT
            for c in cands:
                if c != EXIT and all(o in pd[c] for o in cands):
                    best = c
            r[b] = best
        self.pdom[fn.id] = r
        return r

    def call_fn(self, st, fid, args):
        """-> [(state, value)]"""
        fn = self.prog.fn(fid)
        self.used.add(fn.path)
        self.nframe += 1
        fr = self.nframe
        if not self.depth:
            self.forks = 0
        self.depth += 1
        if self.depth > 90:
            raise Unsupported("recursion")
        for i in range(fn.argc):
            st.mem[(fr, i + 1)] = args[i] if i < len(args) else TOP
        try:
            outs = self.region(st, fr, fn, 0, -1)
        finally:
            self.depth -= 1
        res = []
        for s, how in outs:
            v = s.mem.get((fr, 0))
            if v is None:
                v = UNIT()
            for i in range(len(fn.locals)):
                s.mem.pop((fr, i), None)
            res.append((s, v))
        return res

    def region(self, st, fr, fn, b, stop):
        """run from block b until block stop (-1: return) -> [(state, how)] with how in 'stop', 'ret'"""
        out = []
        work = [(st, b)]
        n = 0
        first = True
        while work:
            st, b = work.pop()
            while True:
                if b == stop and not first:
                    out.append((st, 'stop'))
                    break
                first = False
                n += 1
                self.steps += 1
                if n > LIMIT:
                    raise Unsupported("loop in %s does not end within %d steps" % (fn.path, LIMIT))
                blk = fn.blocks[b]
                for x in blk["s"]:
                    if x[0] == "=":
                        self.store(st, fr, fn, x[1], self.rvalue(st, fr, fn, x[2], x[1]))
                    elif x[0] == "sd":
                        p = self.place(st, fr, fn, x[1])
                        v = self.get(st, p[0], p[1])
                        fs = v[2] if v is not None and v is not TOP and v[0] == 'e' else ()
                        self.put(st, p[0], p[1], ('e', x[2], fs))
                t = blk["t"]
                k = t[0]
                if k == "goto":
                    b = t[1]
                    continue
                if k == "drop":
                    b = t[2]
                    continue
                if k == "ret":
                    out.append((st, 'ret'))
                    break
                if k == "unreachable":
                    break
                if k == "assert":
                    c = self.operand(st, fr, fn, t[1])
                    want = 1 if t[2] else 0
                    if c is TOP:
                        c = None
                    elif c.__class__ is tuple:
                        c = reduce(c[0], st.eqs)
                    if c == want:
                        b = t[5]
                        continue
                    if c == want ^ 1:
                        self.panics[(fn.path, t[6])] = "definite: %s" % t[3]
                        break
                    if c is not None or not t[3].startswith("overflow"):
                        self.panics[(fn.path, t[6])] = "possible: %s" % t[3]
                    if c is not None:
                        self.assume(st, c, want)
                    b = t[5]
                    continue
                if k == "switch":
                    r = self.switch(st, fr, fn, t, b, stop)
                    if r.__class__ is int:
                        b = r
                        continue
                    # a fork that has been run up to its meeting point
                    outs, meet = r
                    for s, how in outs:
                        if how == 'stop' and meet != stop:
                            work.append((s, meet))
                        else:
                            out.append((s, how))
                    if len(out) + len(work) > MAXOUT:
                        raise Unsupported("too many cases in %s" % fn.path)
                    break
                if k == "call":
                    rs = self.call(st, fr, fn, t)
                    if t[4] is None:
                        if rs is not None:
                            self.panics[(fn.path, t[5])] = "call of %s" % (t[1].get("path") if isinstance(t[1], dict) else "?")
                        break
                    nxt = []
                    for s, v in rs:
                        self.store(s, fr, fn, t[3], v)
                        nxt.append(s)
                    if not nxt:
                        break
                    if len(nxt) == 1:
                        st, b = nxt[0], t[4]
                        continue
                    for s in nxt:
                        if t[4] == stop:
                            out.append((s, 'stop'))
                        else:
                            work.append((s, t[4]))
                    if len(out) + len(work) > MAXOUT:
                        raise Unsupported("too many cases in %s" % fn.path)
                    break
                raise Unsupported("terminator %s" % k)
        return out

    def assume(self, st, c, val):
        """c == val, c a bit that is not constant"""
        c = reduce(c, st.eqs)
        if c is None:
            return True
        if c <= 1:
            return c == val
        p = 1 << (c.bit_length() - 1)
        e = c ^ p ^ val
        st.eqs = tuple((q, (f ^ p ^ e) if f & p else f) for q, f in st.eqs) + ((p, e),)
        return True

    def switch(self, st, fr, fn, t, b, stop):
        v = self.operand(st, fr, fn, t[1])
        if v.__class__ is int:
            for x, tb in t[2]:
                if x == v:
                    return tb
            ti = self.ity(t[4]) if len(t) > 4 else None
            if ti:
                for x, tb in t[2]:
                    if x & ((1 << ti[0]) - 1) == v:
                        return tb
            return t[3]
        # conditions for each target
        cases = []
        if v is TOP or not self.isint(v):
            cases = [(None, tb) for _, tb in t[2]]
        else:
            n = len(v)
            bits = [reduce(m, st.eqs) for m in v]
            for x, tb in t[2]:
                cases.append((self.eq(bits, nbits(x & ((1 << n) - 1), n)), tb))
        todo = []
        rest = st
        dead = False
        for c, tb in cases:
            if dead:
                break
            if c is not None and c > 1:
                c = reduce(c, rest.eqs)
            if c == 0:
                continue
            if c == 1:
                todo.append((rest, tb))
                dead = True
                break
            s1 = rest.copy()
            r2 = rest.copy()
            if c is not None:
                self.assume(s1, c, 1)
                self.assume(r2, c, 0)
            todo.append((s1, tb))
            rest = r2
        if not dead and fn.blocks[t[3]]["t"][0] != "unreachable":
            todo.append((rest, t[3]))
        if len(todo) == 1:
            st.mem, st.eqs = todo[0][0].mem, todo[0][0].eqs
            return todo[0][1]
        meet = self.ipdom(fn).get(b, -1)
        groups = []
        self.forks = getattr(self, "forks", 0) + 1
        if self.forks > 20000:
            raise Unsupported("too many undecided branches")
        for s, tb in todo:
            if tb == meet:
                groups.append([(s, 'stop')])
            else:
                groups.append(self.region(s, fr, fn, tb, meet))
        outs = groups[-1]
        live = fn.live[meet] if meet != -1 else {0}
        for g in reversed(groups[:-1]):
            outs = self.joinall(g, outs, st.eqs, fr, fn, live)
        return outs, meet

    def joinall(self, A, B, eqs0, fr, fn, live):
        res = []
        B = list(B)
        for a, ha in A:
            for i, (c, hb) in enumerate(B):
                if ha != hb:
                    continue
                j = self.join(a, c, eqs0, fr, fn, live)
                if j is not None:
                    B[i] = (j, hb)
                    break
            else:
                res.append((a, ha))
        return res + B

    def join(self, a, b, eqs0, fr, fn, live):
        """one state for both, or None"""
        # what distinguishes them
        ea, eb = dict(a.eqs), dict(b.eqs)
        e = None
        if a.eqs == b.eqs:
            eqs = a.eqs
        else:
            # the two sides of one split: same assumptions but one, which is opposite
            if set(ea) != set(eb):
                return None
            diff = [p for p in ea if ea[p] != eb[p]]
            if len(diff) != 1 or ea[diff[0]] ^ eb[diff[0]] != 1:
                # fall back to what held before the split
                if len(a.eqs) < len(eqs0) or len(b.eqs) < len(eqs0):
                    return None
                d0 = [p for p in ea if p not in dict(eqs0)]
                if len(d0) != 1:
                    return None
                diff = d0
                if ea[diff[0]] ^ eb[diff[0]] != 1:
                    return None
            p = diff[0]
            e = p ^ ea[p]          # a bit that is 0 in a and 1 in b
            eqs = tuple((q, f) for q, f in a.eqs if q != p)
            if any(f & p for _, f in eqs):
                return None
        mem = {}
        try:
            for k in set(a.mem) | set(b.mem):
                x, y = a.mem.get(k), b.mem.get(k)
                if x is y:
                    mem[k] = x
                    continue
                if x == y:
                    mem[k] = x
                    continue
                if k[0] == fr and k[1] not in live and not self.taken(fn, k[1]):
                    continue
                if x is None or y is None:
                    # only one side has it
                    if k[0] in ('tmp', 'K') or k[0].__class__ is int:
                        mem[k] = x if y is None else y
                        if k[0].__class__ is int and k[0] == fr and k[1] in live:
                            mem[k] = TOP
                        continue
                    mem[k] = TOP
                    continue
                try:
                    mem[k] = self.jv(x, y, e, a.eqs, b.eqs)
                except NoJoin:
                    if k[0] == fr and k[1] not in live:
                        mem[k] = TOP
                        continue
                    raise
        except NoJoin:
            return None
        return St(mem, eqs)

    def taken(self, fn, l):
        """address of the local is taken"""
        tk = self.tcache.get(('tk', fn.id))
        if tk is None:
            tk = set()
            for blk in fn.blocks:
                for x in blk["s"]:
                    if x[0] == "=" and x[2][0] == "ref" and "*" not in x[2][1][1]:
                        tk.add(x[2][1][0])
            self.tcache[('tk', fn.id)] = tk
        return l in tk

    def jv(self, x, y, e, ea, eb):
        if x is y or x == y:
            return x
        if x is TOP or y is TOP:
            return TOP
        xi, yi = self.isint(x), self.isint(y)
        if xi and yi:
            n = max(len(x) if x.__class__ is tuple else 0, len(y) if y.__class__ is tuple else 0) or max(x.bit_length(), y.bit_length(), 1)
            if x.__class__ is int and y.__class__ is int:
                n = 64 if n > 1 else 1
            r = []
            for p, q in zip(nbits(x, n), nbits(y, n)):
                r.append(self.jb(p, q, e, ea, eb))
            return mk(r)
        if xi or yi or x is None or y is None:
            raise NoJoin()
        if x[0] != y[0]:
            raise NoJoin()
        k = x[0]
        if k == 'bv':
            if len(x[1]) != len(y[1]):
                raise NoJoin()
            return (k, tuple(self.jb(p, q, e, ea, eb) for p, q in zip(x[1], y[1])))
        if k in ('a', 'v', 'it'):
            if len(x[1]) != len(y[1]) or x[2:] != y[2:]:
                raise NoJoin()
            return (k, tuple(self.jv(p, q, e, ea, eb) for p, q in zip(x[1], y[1]))) + x[2:]
        if k == 'e':
            if x[1] != y[1]:
                raise NoJoin()
            if len(x[2]) != len(y[2]):
                raise NoJoin()
            return (k, x[1], tuple(self.jv(p, q, e, ea, eb) for p, q in zip(x[2], y[2])))
        if k == 'box':
            return (k, self.jv(x[1], y[1], e, ea, eb))
        if k == 'W':
            if x[1] != y[1] or len(x[2]) != len(y[2]):
                raise NoJoin()
            if any(p[0] != q[0] for p, q in zip(x[2], y[2])):
                raise NoJoin()
            return (k, x[1], tuple((p[0], self.jv(p[1], q[1], e, ea, eb)) for p, q in zip(x[2], y[2])))
        raise NoJoin()

    def jb(self, p, q, e, ea, eb):
        """join of two bits"""
        if p == q:
            return p
        p, q = reduce(p, ea), reduce(q, eb)
        if p is None or q is None:
            return None
        if p == q:
            return p
        if p ^ q == 1 and e is not None:
            return p ^ e
        return None

    # ---------------------------------------------------------------- calls
    def writable(self, t, depth=0):
        """a value of this type gives access to something that can be changed"""
        ty = self.prog.ty(t)
        k = ty.get("k")
        if k in ("bool", "char", "int", "uint", "float", "str", "never", "fndef"):
            return False
        if depth > 6:
            return True
        if k == "ref":
            return ty.get("mut") or self.writable(ty["e"], depth + 1)
        if k in ("slice", "array"):
            return self.writable(ty["e"], depth + 1)
        if k == "tuple":
            return any(self.writable(x, depth + 1) for x in ty["f"])
        if k == "adt":
            if ty.get("kind") == "enum" and not any(v["f"] for v in ty.get("v", ())):
                return False
            s = ty.get("s", "")
            if s.startswith(("std::vec::Vec<", "bit_vec::BitVec", "std::option::Option<", "std::ops::Range", "std::result::Result<")):
                return any(self.writable(x, depth + 1) for x in ty.get("args", ()))
        return True

    def call(self, st, fr, fn, t):
        cl = t[1]
        args = [self.operand(st, fr, fn, a) for a in t[2]]
        if not isinstance(cl, dict):
            raise Unsupported("indirect call in %s" % fn.path)
        import bitmodels
        r = bitmodels.model(self, st, cl, args, t)
        if r is not NotImplemented:
            return r
        fid = cl.get("fn")
        if fid is None:
            if t[4] is None:
                return [(st, UNIT())]
            if any(self.writable(x) for x in t[7]):
                raise Unsupported("no model of %s" % (cl.get("full") or cl.get("path")))
            # it can change nothing: only its result is unknown
            self.unmodelled.add(cl.get("full") or cl.get("path"))
            it = self.ity(t[6])
            return [(st, (None,) * it[0] if it else TOP)]
        callee = self.prog.fn(fid)
        if callee.closure_ and len(args) == 2 and args[1] is not TOP and args[1] is not None and args[1][0] == 'a':
            if callee.argc == 1 + len(args[1][1]):
                args = [args[0]] + list(args[1][1])
            t1 = self.prog.ty(callee.locals[1])
            if t1.get("k") == "ref" and args[0] is not TOP and args[0][0] not in ('r',):
                self.nframe += 1
                key = ('tmp', self.nframe)
                st.mem[key] = args[0]
                args[0] = ('r', key, ())
        return self.call_fn(st, fid, args)
