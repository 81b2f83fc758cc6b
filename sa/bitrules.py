"""Rules decided by the bit engine: checksum (C10), position code in use (C19), packing of codes (C24)."""
import itertools
from bits import *
import bitmodels
from bitmodels import Source
from codecs_ import Anchor

TD = "retrocompressor::td0::crc16"


class Base:
    counters = {}

    def __init__(self):
        self.reports = {}
        self.cov = {"functions": set(), "abstract_steps": 0}
        self.smp = []

    def report(self, key, msg):
        self.reports.setdefault(key, msg)

    part = (0, 1)
    turn = -1

    def mine(self):
        """the work is divided among several runs of the rule"""
        self.turn += 1
        return self.turn % self.part[1] == self.part[0]

    def mismatch(self, I, key, msg, pairs, eqs):
        """a result that is not what it should be: certain if a known bit differs; if it is only unknown, not so
        when it went through something that has no model"""
        if I.unmodelled and not any(g is not None and e is not None and reduce(g, eqs) != reduce(e, eqs) for g, e in pairs):
            raise Unsupported("result depends on %s, which has no model" % ", ".join(sorted(I.unmodelled)))
        self.report(key, msg)

    def done(self, I):
        self.cov["functions"] |= I.used
        self.cov["abstract_steps"] += I.steps

    def where(self, prog, fid):
        f = prog.fn(fid)
        return "%s (%s)" % (f.path, f.span if isinstance(f.span, str) else "?")


# ---------------------------------------------------------------- checksum
def crcref(seed, bs, poly=0xa097):
    c = nbits(seed, 16)
    for b in bs:
        b = nbits(b, 8)
        for i in range(7, -1, -1):
            top = c[15] ^ b[i]
            c = [0] + c[:15]
            for k in range(16):
                if (poly >> k) & 1:
                    c[k] ^= top
    return c


class Checksum(Base):
    """C10"""

    def __init__(self, lengths, part=(0, 1)):
        super().__init__()
        self.lengths = lengths

    def find(self, prog):
        """-> [(function, index of the seed or None, index of the buffer)]"""
        def sig(i):
            f = prog.fn(i)
            ps = [prog.tystr(t) for t in f.locals[1:f.argc + 1]]
            if rettype(prog, f) != "u16" or not f.path.startswith("retrocompressor::"):
                return None
            bufs = [k for k, t in enumerate(ps) if t in ("&[u8]", "&'{erased} [u8]") or (t.startswith("&") and t.endswith("[u8]") and "mut" not in t)]
            seeds = [k for k, t in enumerate(ps) if t == "u16"]
            if len(bufs) != 1 or len(seeds) > 1 or len(bufs) + len(seeds) != len(ps):
                return None
            return (i, seeds[0] if seeds else None, bufs[0])
        named = [x for x in map(sig, prog.find(TD)) if x]
        return named or outermost(prog, [x for x in (sig(i) for i, _ in local_fns(prog)) if x])

    def run(self, prog):
        fs = self.find(prog)
        if not fs:
            raise Anchor("the checksum function")
        for f in fs:
            self.one(prog, *f)
        self.cov["buffer_lengths"] = len(self.lengths)

    def one(self, prog, fid, si, bi):
        for n in self.lengths:
            I = Bits(prog)
            st = St()
            bs = tuple(I.atoms(8) for _ in range(n))
            seed = I.atoms(16) if si is not None else 0
            st.mem[('buf', 0)] = ('a', bs)
            args = [None] * (2 if si is not None else 1)
            args[bi] = ('sl', ('buf', 0), (), 0, n)
            if si is not None:
                args[si] = seed
            outs = I.call_fn(st, fid, args)
            ref = crcref(seed, bs)
            for w, p in I.panics.items():
                self.report(("panic", w[0]), "%s: may panic on a buffer of %d bytes (%s)" % (self.where(prog, fid), n, p))
            for s, v in outs:
                got = nbits(v, 16) if v is not TOP else [None] * 16
                bad = [i for i in range(16) if reduce(got[i], s.eqs) != reduce(ref[i], s.eqs)]
                if bad:
                    self.mismatch(I, ("value",), "%s: for a buffer of %d bytes bit %d of the checksum is not that of CRC-16 with polynomial A097 "
                                  "(%d of 16 bits differ)" % (self.where(prog, fid), n, bad[0], len(bad)), zip(got, ref), s.eqs)
                self.cov["checksum_bits_compared"] = self.cov.get("checksum_bits_compared", 0) + 16
            if not outs:
                self.report(("none",), "%s: never returns for a buffer of %d bytes" % (self.where(prog, fid), n))
            self.done(I)
        self.smp.append("%s: 16 result bits as affine functions of seed and buffer bits, equal to the reference for lengths %s.."
                        % (prog.fn(fid).path, ",".join(str(x) for x in list(self.lengths)[:12])))


# ---------------------------------------------------------------- finding coders
def pointee(prog, t):
    ty = prog.ty(t)
    return ty.get("e") if ty.get("k") == "ref" else None


def shape(prog, f):
    """what kind of parameters a function has: list of 'X:<type>', 'int', 'W', 'R', 'enum', '?'"""
    out = []
    for t in f.locals[1:f.argc + 1]:
        ty = prog.ty(t)
        e = pointee(prog, t)
        s = prog.tystr(e) if e is not None else ""
        if ty.get("k") in ("uint", "int"):
            out.append('int')
        elif e is not None and s.startswith(("std::io::BufWriter<",)):
            out.append('W')
        elif e is not None and s.startswith(("std::io::BufReader<", "std::io::Bytes<")):
            out.append('R')
        elif e is not None and prog.ty(e).get("k") == "adt" and s.startswith("retrocompressor::"):
            out.append('X:%d' % e)
        elif ty.get("k") == "adt" and ty.get("kind") == "enum" and ty.get("path", "").startswith("retrocompressor::"):
            out.append('enum')
        else:
            out.append('?')
    return out


def local_fns(prog):
    for i, d in enumerate(prog.d["fns"]):
        if d["crate"] == "retrocompressor" and not d.get("closure"):
            yield i, prog.fn(i)


def callees(prog, f):
    for b in f.blocks:
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn") is not None:
            yield t[1]["fn"]


def outermost(prog, cands):
    """of the candidates (first component: function) those that are not mere parts of other candidates"""
    ids = {c[0] for c in cands}
    callers = {i: set() for i in ids}
    for i, f in ((i, prog.fn(i)) for i in range(len(prog.d["fns"]))):
        for c in callees(prog, f):
            if c in ids and c != i:
                callers[c].add(i)
    return [c for c in cands if not callers[c[0]] or callers[c[0]] - ids]


def rettype(prog, f):
    return prog.tystr(f.locals[0])


def constructors(prog, x):
    r = []
    for i, f in local_fns(prog):
        if f.locals[0] == x:
            sh = shape(prog, f)
            if all(k in ('int', 'enum') for k in sh):
                r.append((i, sh))
    return r


def variants(prog, i, sh):
    """argument choices for a constructor: [(name of the bit order or None, args)]"""
    f = prog.fn(i)
    alts = []
    for k, t in zip(sh, f.locals[1:f.argc + 1]):
        if k == 'int':
            alts.append([(None, 314)])
        else:
            alts.append([(v["n"], ('e', n, ())) for n, v in enumerate(prog.ty(t)["v"])])
    for c in itertools.product(*alts):
        names = [n for n, _ in c if n]
        yield (names[0] if names else None), [v for _, v in c]


def build(prog, I, i, args):
    st = St()
    outs = I.call_fn(st, i, list(args))
    if len(outs) != 1 or I.panics:
        raise Unsupported("%s has no single result" % prog.fn(i).path)
    return outs[0][1], outs[0][0].mem


def pack(bits, lsb):
    """bytes of a bit sequence, zero padded"""
    out = []
    for i in range(0, len(bits), 8):
        ch = list(bits[i:i + 8]) + [0] * (8 - len(bits[i:i + 8]))
        out.append(mk(ch if lsb else list(reversed(ch))))
    return out


CONSTS = {}        # id -> value trees without symbolic bits (kept alive here)


def mapbits(v, f):
    """rename the bits of a value tree"""
    if v is None or v is TOP or v.__class__ in (int, str):
        return v
    if id(v) in CONSTS:
        return v
    k = v[0]
    if k.__class__ is not str:
        return mk([f(b) for b in v])
    if k == 'bv':
        r = ('bv', tuple(f(b) for b in v[1]))
    elif k in ('a', 'v', 'it'):
        r = (k, tuple([x if x.__class__ is int else mapbits(x, f) for x in v[1]])) + v[2:]
    elif k == 'e':
        r = (k, v[1], tuple([mapbits(x, f) for x in v[2]]))
    elif k == 'box':
        r = (k, mapbits(v[1], f))
    else:
        return v
    if len(v[1 if k != 'e' else 2]) > 32 and k != 'bv' and all(x.__class__ is int for x in v[1]):
        CONSTS[id(v)] = v
        return v
    return r


PEND = 400          # canonical atoms are far from the fresh ones


def pend(i):
    return 1 << (PEND + i)


def forget(v, irrelevant):
    """the coder value with fields that do not matter made unknown"""
    if not irrelevant or v is TOP or v[0] != 'a':
        return v
    return ('a', tuple(TOP if i in irrelevant else x for i, x in enumerate(v[1])))


def irrelevant(rule, I, v0, attempt):
    """integer fields of a coder whose value does not matter (counters): those that can be made unknown.
    A heuristic for precision only: an unknown field covers every value it can have."""
    free = []
    if v0 is TOP or v0[0] != 'a':
        return free
    for n, x in enumerate(v0[1]):
        if x.__class__ is not int:
            continue
        keep, smp = dict(rule.reports), list(rule.smp)
        v = v0[1][:n] + (TOP,) + v0[1][n + 1:]
        try:
            attempt(('a', v))
            if rule.reports == keep and not I.unmodelled:
                free.append(n)
        except (Unsupported, NoJoin):
            pass
        rule.reports, rule.smp = keep, smp
        I.unmodelled = set()
    return free


def joinval(I, x, y):
    try:
        return I.jv(x, y, None, (), ())
    except NoJoin:
        return None


class Writer(Base):
    """C24, output side: whatever was pending, the stream gets exactly the bits of the code after it"""

    def __init__(self, widths, part=(0, 1)):
        super().__init__()
        self.widths = widths
        self.part = part

    def coders(self, prog):
        r = []
        for i, f in local_fns(prog):
            sh = shape(prog, f)
            xs = [k for k in sh if k.startswith('X:')]
            if len(xs) == 1 and sh.count('W') == 1 and sh.count('int') == 2 and len(sh) == 4 and rettype(prog, f).startswith("std::result::Result<()"):
                r.append((i, sh, int(xs[0][2:])))
        return outermost(prog, r)

    def widtharg(self, prog, f, sh):
        ints = [k for k, s in enumerate(sh) if s == 'int']
        for k in ints:
            n = f.names.get(k + 1, "")
            if any(w in n for w in ("bits", "width", "len", "count", "size", "num")):
                return k, [j for j in ints if j != k][0]
        return ints[0], ints[1]

    def run(self, prog):
        cs = self.coders(prog)
        self.cov["bit_writers"] = {prog.fn(i).path for i, _, _ in cs}
        for i, sh, x in cs:
            made = False
            for ci, csh in constructors(prog, x):
                for order, args in variants(prog, ci, csh):
                    made = True
                    if self.mine():
                        self.coder(prog, i, sh, ci, args, order)
            if not made:
                raise Unsupported("no way to make a %s" % prog.tystr(x))

    def coder(self, prog, i, sh, ci, cargs, order):
        f = prog.fn(i)
        lsb = order == "Lsb0"
        wi, ki = self.widtharg(prog, f, sh)
        kt = prog.ty(f.locals[ki + 1])["bits"]
        I = Bits(prog)
        I.natom = 1000
        v0, mem0 = build(prog, I, ci, cargs)
        aligns = None if kt < 64 else ["low"]
        runs = 0
        name = self.where(prog, i) + (" [%s]" % order if order else "")
        self.free = ()

        def attempt(v):
            ks = [(0, v)]
            for w in (3, 6, 7):
                ks = [c for k, v in ks for c in (self.step(prog, I, i, sh, wi, ki, kt, k, v, w, lsb, aligns, mem0, name)[0] or ())]
        self.free = irrelevant(self, I, v0, attempt)
        v0 = forget(v0, self.free)
        states = {0: [v0]}
        work = [(0, v0)]
        while work:
            r, v = work.pop()
            if v not in states.get(r, ()):
                continue            # replaced by a more general one
            for w in self.widths:
                if w > kt:
                    continue
                runs += 1
                if runs > 6000:
                    raise Unsupported("states of %s do not converge" % name)
                res, al = self.step(prog, I, i, sh, wi, ki, kt, r, v, w, lsb, aligns, mem0, name)
                if res is None:
                    return
                if al is not None:
                    aligns = al
                for r2, v2 in res:
                    lst = states.setdefault(r2, [])
                    if v2 in lst:
                        continue
                    new, keep = v2, []
                    for o in lst:
                        j = joinval(I, o, new)
                        if j is None:
                            keep.append(o)
                        else:
                            new = j
                    if new in lst:
                        continue
                    if len(keep) > 40:
                        raise Unsupported("too many shapes of %s" % name)
                    states[r2] = keep + [new]
                    work.append((r2, new))
        self.done(I)
        self.cov.setdefault("coder_states", set()).update((name, r) for r in states)
        self.cov["put_transitions"] = self.cov.get("put_transitions", 0) + runs
        self.smp.append("%s: %d states of pending bits, %d transitions, stream content equals the packed codes" % (name, len(states), runs))

    def step(self, prog, I, i, sh, wi, ki, kt, r, v, w, lsb, aligns, mem0, name):
        BASE = 5
        st = St(dict(mem0))
        pb = [pend(k) for k in range(r)]
        st.mem[('c', 0)] = v
        cur = {BASE: pack(pb, lsb)[0]} if r else {}
        st.mem[('w', 0)] = ('W', BASE, tuple(sorted(cur.items())))
        code = I.atoms(kt)
        cb = nbits(code, kt)
        args = []
        for k, s in enumerate(sh):
            if s == 'W':
                args.append(('r', ('w', 0), ()))
            elif s.startswith('X:'):
                args.append(('r', ('c', 0), ()))
            elif k == wi:
                args.append(w)
            else:
                args.append(code)
        I.panics = {}
        outs = I.call_fn(st, i, args)
        what = "%d pending bits, a code of %d bits" % (r, w)
        for p, m in I.panics.items():
            self.report(("panic", name), "%s: may panic with %s (%s at %s)" % (name, what, m, p[1]))
            return None, None
        if not outs:
            self.report(("noreturn", name), "%s: does not return with %s" % (name, what))
            return None, None
        low, high = cb[:w], cb[kt - w:]
        cands = {"low": low, "high": high}
        res = []
        good = list(cands) if aligns is None else list(aligns)
        total = r + w
        for s, ret in outs:
            if ret is TOP or ret[0] != 'e' or ret[1] != 0:
                self.report(("err", name), "%s: fails without a failure of the stream, with %s" % (name, what))
                return None, None
            wv = s.mem[('w', 0)]
            written = dict(wv[2])
            ok = []
            for al in good:
                bits = cands[al]
                seq = pb + (bits if lsb else list(reversed(bits)))
                want = pack(seq, lsb)
                if all(same(written.get(BASE + k), b, s.eqs) for k, b in enumerate(want)) and \
                        all(b == 0 for a, b in written.items() if a >= BASE + len(want)) and wv[1] == BASE + total // 8:
                    ok.append(al)
            if not ok:
                self.mismatch(I, ("bits", name), "%s: with %s the output is not the pending bits followed by the bits of the code%s"
                            % (name, what, "" if wv[1] == BASE + total // 8 else " (or the stream is left at byte %d instead of %d)" % (wv[1] - BASE, total // 8)),
                              outpairs(written, wv[1], BASE, want, BASE + total // 8), s.eqs)
                return None, None
            good = ok
            seq = pb + (cands[good[0]] if lsb else list(reversed(cands[good[0]])))
            rest = seq[8 * (total // 8):]
            ren = {}
            for k, b in enumerate(rest):
                if b is not None and b > 1:
                    ren[b] = pend(k)
            c2 = mapbits(s.mem[('c', 0)], lambda b: b if b is None or b <= 1 else ren.get(reduce(b, s.eqs), None))
            c2 = forget(c2, self.free)
            res.append((len(rest), c2))
        return res, good


class Reader(Base):
    """C24, input side: whatever is buffered, a code is the next bits of the stream, and nothing else is consumed.

    The state of a reader is its value up to the bits it has already delivered; the bits it has fetched but not
    delivered (k of them, by counting: 8 per byte fetched, minus those delivered) are named pend(0..k)."""
    MAXSTATES = 3000

    def __init__(self, widths, fixed=True, part=(0, 1)):
        """widths: (those tried in every state, those tried in the first two states with each number of buffered bits)"""
        super().__init__()
        self.widths, self.near = widths if widths and widths[0].__class__ is not int else (widths, ())
        self.fixed = fixed
        self.part = part

    def readers(self, prog):
        """-> [(fn, shape, adt, takes a width)]"""
        r = []
        for i, f in local_fns(prog):
            sh = shape(prog, f)
            xs = [k for k in sh if k.startswith('X:')]
            rt = rettype(prog, f)
            if len(xs) != 1 or sh.count('R') != 1:
                continue
            if len(sh) == 3 and sh.count('int') == 1 and rt.startswith(("std::result::Result<u", "std::result::Result<i")):
                r.append((i, sh, int(xs[0][2:]), True))
            elif self.fixed and len(sh) == 2 and rt.startswith("std::result::Result<u8,"):
                r.append((i, sh, int(xs[0][2:]), False))
        return outermost(prog, r)

    def run(self, prog):
        rs = self.readers(prog)
        self.cov["bit_readers"] = {prog.fn(i).path for i, _, _, _ in rs}
        byx = {}
        for r in rs:
            byx.setdefault(r[2], []).append(r)
        for x, fs in byx.items():
            made = False
            for ci, csh in constructors(prog, x):
                for order, args in variants(prog, ci, csh):
                    made = True
                    if self.mine():
                        self.decoder(prog, fs, ci, args, order)
            if not made:
                raise Unsupported("no way to make a %s" % prog.tystr(x))

    def decoder(self, prog, fs, ci, cargs, order):
        lsb = order == "Lsb0"
        I = Bits(prog)
        I.natom = 1000
        v0, mem0 = build(prog, I, ci, cargs)
        ops, near, first = [], [], {}
        for i, sh, x, wide in fs:
            name = self.where(prog, i) + (" [%s]" % order if order else "")
            rt = prog.ty(prog.fn(i).locals[0])
            if wide:
                ops += [(i, sh, w, name) for w in self.widths]
                near += [(i, sh, w, name) for w in self.near if w not in self.widths]
            else:
                w = self.infer(prog, I, i, sh, v0, mem0, name)
                if w is not None:
                    ops.append((i, sh, w, name))
        self.free = ()

        def attempt(v):
            ks = {(0, v)}
            for i, sh, w, name in ops[-3:]:
                ks = {c for k, v in ks for c in (self.step(prog, I, i, sh, k, v, w, lsb, mem0, name) or ())}
        self.free = irrelevant(self, I, v0, attempt)
        v0 = forget(v0, self.free)
        seen = {(0, v0)}
        work = [(0, v0)]
        runs = 0
        while work:
            k, v = work.pop(0)
            first[k] = first.get(k, 0) + 1
            for i, sh, w, name in ops + (near if first[k] <= 2 else []):
                runs += 1
                nx = self.step(prog, I, i, sh, k, v, w, lsb, mem0, name)
                if nx is None:
                    return
                for c in nx:
                    if c not in seen:
                        seen.add(c)
                        if len(seen) > self.MAXSTATES:
                            raise Unsupported("states of %s do not converge" % name)
                        work.append(c)
        self.done(I)
        nm = prog.tystr(fs[0][2]) + (" [%s]" % order if order else "")
        self.cov.setdefault("reader_states", set()).update((nm, n) for n in range(len(seen)))
        self.cov["get_transitions"] = self.cov.get("get_transitions", 0) + runs
        self.smp.append("%s: %d states, %d transitions of %s; result and consumption equal the next bits of the stream"
                        % (nm, len(seen), runs, ", ".join(sorted({prog.fn(o[0]).path.split("::")[-1] for o in ops}))))

    def args(self, sh, w):
        return [('r', ('rd', 0), ()) if s == 'R' else ('r', ('c', 0), ()) if s.startswith('X:') else w for s in sh]

    def infer(self, prog, I, i, sh, v0, mem0, name):
        """how many bits a reader without a width delivers: read off the initial state"""
        src = Source()
        st = St(dict(mem0))
        st.mem[('c', 0)] = v0
        st.mem[('rd', 0)] = ('R', 0, src)
        for s, v in I.call_fn(st, i, self.args(sh, 0)):
            if v is not TOP and v[0] == 'e' and v[1] == 0 and src:
                got = nbits(v[2][0], 8)
                n = len([b for b in got if b != 0])
                if s.mem[('c', 0)] == v0:
                    return None         # reads past the buffer: a helper, not a reader of codes
                return n if n in (1, 2, 4, 8) else None
        return None

    def step(self, prog, I, i, sh, k, v, w, lsb, mem0, name):
        need = max(0, (w - k + 7) // 8)
        what = "%d bits buffered, a code of %d bits" % (k, w)
        rng = 64
        out = []
        for full in (True, False):
            if not full and need == 0:
                continue
            src = Source()
            src.end = need if full else need - 1
            st = St(dict(mem0))
            st.mem[('c', 0)] = v
            st.mem[('rd', 0)] = ('R', 0, src)
            I.panics = {}
            outs = I.call_fn(st, i, self.args(sh, w))
            for p, m in I.panics.items():
                self.report(("panic", name), "%s: may panic with %s (%s at %s)" % (name, what, m, p[1]))
                return None
            if not outs:
                self.report(("noreturn", name), "%s: does not return with %s" % (name, what))
                return None
            seq = [pend(j) for j in range(k)]
            for by in src:
                b = nbits(by, 8)
                seq += b if lsb else b[::-1]
            for s, ret in outs:
                if ret is TOP or ret[0] != 'e':
                    raise Unsupported("result of %s" % name)
                if not full:
                    if ret[1] == 0 and self.lenient(prog, i, sh):
                        got = nbits(ret[2][0], rng) if ret[2][0] is not TOP else [None] * rng
                        z = seq[:w] + [0] * (w - len(seq))
                        exp = (z if lsb else z[::-1]) + [0] * (rng - w)
                        if any(g is None or reduce(g, s.eqs) != reduce(e, s.eqs) for g, e in zip(got, exp)):
                            self.report(("eofbits", name), "%s: bits beyond the end of the input are not 0, with %s" % (name, what))
                            return None
                        continue
                    if ret[1] == 0:
                        self.report(("eof", name), "%s: delivers a code although the input ends within it, with %s" % (name, what))
                        return None
                    continue
                if ret[1] != 0:
                    self.report(("err", name), "%s: fails although the input holds the code, with %s" % (name, what))
                    return None
                at = s.mem[('rd', 0)][1]
                got = nbits(ret[2][0], rng) if ret[2][0] is not TOP else [None] * rng
                exp = seq[:w] if lsb else seq[:w][::-1]
                exp = exp + [0] * (rng - len(exp))
                for j in range(rng):
                    if got[j] is None or j >= len(exp) or reduce(got[j], s.eqs) != reduce(exp[j], s.eqs):
                        self.mismatch(I, ("value", name), "%s: with %s bit %d of the result is not the bit of the stream it should be" % (name, what, j), zip(got, exp), s.eqs)
                        return None
                out.append(self.next(s, seq, k + 8 * at, w))
        return out

    def lenient(self, prog, i, sh):
        """the port reads from an iterator of bytes and, as the original program, sees 0 bits after the end"""
        f = prog.fn(i)
        return prog.tystr(pointee(prog, f.locals[sh.index('R') + 1])).startswith("std::io::Bytes<")

    def next(self, s, seq, have, w):
        ren = {}
        for j, b in enumerate(seq[w:have]):
            b = reduce(b, s.eqs)
            ren[b] = pend(j)
        c2 = mapbits(s.mem[('c', 0)], lambda b: b if b is None else ren.get(reduce(b, s.eqs), None))
        return (have - w, forget(c2, self.free))


LENS = [3] + [4] * 3 + [5] * 8 + [6] * 12 + [7] * 24 + [8] * 16


def prefixes():
    """the prefix code of the upper six bits of a position that the LZHUF format fixes: canonical, with these lengths"""
    out, c = [], 0
    for i, n in enumerate(LENS):
        out.append([(c >> (7 - j)) & 1 for j in range(n)])
        c += 1 << (8 - n)
    return out


class Position(Reader):
    """C19: positions are written as the format's prefix for the upper six bits and the lower six verbatim,
    wherever in a byte the code starts, and are read back from that, consuming exactly those bits"""

    def __init__(self, full, part=(0, 1)):
        Base.__init__(self)
        self.full = full
        self.part = part
        self.pre = prefixes()

    def sides(self, prog):
        enc, dec = [], []
        for i, f in local_fns(prog):
            sh = shape(prog, f)
            xs = [k for k in sh if k.startswith('X:')]
            rt = rettype(prog, f)
            nm = "pos" in f.path.split("::")[-1].lower()
            if len(xs) != 1 or not nm:
                continue
            if len(sh) == 3 and sh.count('W') == 1 and sh.count('int') == 1 and rt.startswith("std::result::Result<()"):
                enc.append((i, sh, int(xs[0][2:])))
            elif len(sh) == 2 and sh.count('R') == 1 and rt.startswith(("std::result::Result<u", "std::result::Result<i")):
                dec.append((i, sh, int(xs[0][2:])))
        return outermost(prog, enc), outermost(prog, dec)

    def run(self, prog):
        enc, dec = self.sides(prog)
        if not enc:
            raise Anchor("a function that writes positions")
        if not dec:
            raise Anchor("a function that reads positions")
        for kind, lst in (("enc", enc), ("dec", dec)):
            for i, sh, x in lst:
                cs = [(ci, a) for ci, csh in constructors(prog, x) for _, a in variants(prog, ci, csh)]
                if not cs:
                    raise Unsupported("no way to make a %s" % prog.tystr(x))
                for ci, a in cs:
                    if kind == "enc":
                        if self.mine():
                            self.encoder(prog, i, sh, ci, a)
                    else:
                        n = 8 if self.full else 2
                        for ch in range(n):
                            if self.mine():
                                self.decoder(prog, i, sh, ci, a, ch, n)

    # -- output
    def encoder(self, prog, i, sh, ci, cargs):
        I = Bits(prog)
        I.natom = 1000
        name = self.where(prog, i)
        v0, mem0 = build(prog, I, ci, cargs)
        self.free = ()

        def attempt(v):
            ks = {((), v)}
            for c in (0, 24, 48):
                ks = {y for k, v in ks for y in (self.put(prog, I, i, sh, k, v, c, mem0, name) or ())}
        self.free = irrelevant(self, I, v0, attempt)
        v0 = forget(v0, self.free)
        seen, work, runs = {((), v0)}, [((), v0)], 0
        while work:
            k, v = work.pop()
            for c in range(64):
                runs += 1
                nx = self.put(prog, I, i, sh, k, v, c, mem0, name)
                if nx is None:
                    return
                for y in nx:
                    if y not in seen:
                        seen.add(y)
                        if len(seen) > self.MAXSTATES:
                            raise Unsupported("states of %s do not converge" % name)
                        work.append(y)
        self.done(I)
        self.cov.setdefault("position_writers", set()).add(name)
        self.cov["position_writes"] = self.cov.get("position_writes", 0) + runs
        self.smp.append("%s: %d states, %d writes of a position class with symbolic lower bits" % (name, len(seen), runs))

    def put(self, prog, I, i, sh, pb, v, c, mem0, name):
        BASE = 5
        st = St(dict(mem0))
        r = len(pb)
        st.mem[('c', 0)] = v
        st.mem[('w', 0)] = ('W', BASE, ((BASE, pack(pb, False)[0]),) if r else ())
        low = [I.atom() for _ in range(6)]
        p = mk(low + [(c >> j) & 1 for j in range(6)] + [0] * 4)
        args = [('r', ('w', 0), ()) if s == 'W' else ('r', ('c', 0), ()) if s.startswith('X:') else p for s in sh]
        I.panics = {}
        outs = I.call_fn(st, i, args)
        what = "%d pending bits, positions %d..%d" % (r, 64 * c, 64 * c + 63)
        for q, m in I.panics.items():
            self.report(("panic", name), "%s: may panic with %s (%s at %s)" % (name, what, m, q[1]))
            return None
        if not outs:
            self.report(("noreturn", name), "%s: does not return with %s" % (name, what))
            return None
        seq = list(pb) + self.pre[c] + low[::-1]
        want = pack(seq, False)
        res = []
        for s, ret in outs:
            if ret is TOP or ret[0] != 'e' or ret[1] != 0:
                self.report(("err", name), "%s: fails without a failure of the stream, with %s" % (name, what))
                return None
            wv = s.mem[('w', 0)]
            written = dict(wv[2])
            if not all(same(written.get(BASE + k), b, s.eqs) for k, b in enumerate(want)) or any(b != 0 for a, b in written.items() if a >= BASE + len(want)) \
                    or wv[1] != BASE + len(seq) // 8:
                self.mismatch(I, ("bits", name), "%s: with %s the output is not the pending bits, the prefix %s and the six lower bits"
                              % (name, what, "".join(str(b) for b in self.pre[c])), outpairs(written, wv[1], BASE, want, BASE + len(seq) // 8), s.eqs)
                return None
            # what is pending is renamed; the last bit of a prefix may be among it and stays a constant
            rest = seq[8 * (len(seq) // 8):]
            ren = {b: pend(k) for k, b in enumerate(rest) if b > 1}
            c2 = mapbits(s.mem[('c', 0)], lambda b: b if b is None or b <= 1 else ren.get(reduce(b, s.eqs), None))
            res.append((tuple(ren.get(b, b) for b in rest), forget(c2, self.free)))
        return res

    # -- input
    def decoder(self, prog, i, sh, ci, cargs, ch, n):
        I = Bits(prog)
        I.natom = 1000
        name = self.where(prog, i)
        v0, mem0 = build(prog, I, ci, cargs)
        self.free = ()
        reps = [0, 1, 4, 12, 24, 48]
        every = [0] + [c for c in (range(64) if self.full else reps) if c % n == ch % n or (not self.full and reps.index(c) % n == ch)]

        def attempt(v):
            ks = {(0, v)}
            for c in (0, 24, 48):
                ks = {y for k, v in ks for y in (self.take(prog, I, i, sh, k, v, c, mem0, name) or ())}
        self.free = irrelevant(self, I, v0, attempt)
        v0 = forget(v0, self.free)
        seen, work, runs = {(0, v0)}, [(0, v0)], 0
        near = set()
        while work:
            k, v = work.pop(0)
            cl = every
            if not self.full and k not in near:
                near.add(k)
                cl = [0] + [c for c in range(64) if c % n == ch]
            for c in dict.fromkeys(cl):
                runs += 1
                nx = self.take(prog, I, i, sh, k, v, c, mem0, name)
                if nx is None:
                    return
                for y in nx:
                    if y not in seen:
                        seen.add(y)
                        if len(seen) > self.MAXSTATES:
                            raise Unsupported("states of %s do not converge" % name)
                        work.append(y)
        self.done(I)
        self.cov.setdefault("position_readers", set()).add(name)
        self.cov["position_reads"] = self.cov.get("position_reads", 0) + runs
        self.smp.append("%s: %d states, %d reads of a position class with symbolic lower bits" % (name, len(seen), runs))

    def take(self, prog, I, i, sh, k, v, c, mem0, name):
        low = [I.atom() for _ in range(6)]
        code = self.pre[c] + low[::-1]
        w = len(code)
        need = max(0, (w - k + 7) // 8)
        seq = code + [I.atom() for _ in range(k + 8 * need - w)]
        src = Source()
        src.end = need
        rest = seq[k:]
        for j in range(need):
            src.append(mk(rest[8 * j:8 * j + 8][::-1]))
        st = St(dict(mem0))
        st.mem[('c', 0)] = mapbits(v, lambda b: seq[b.bit_length() - 1 - PEND] if b is not None and b >= 1 << PEND and b < 1 << (PEND + 64) else b)
        st.mem[('rd', 0)] = ('R', 0, src)
        I.panics = {}
        outs = I.call_fn(st, i, self.args(sh, 0))
        what = "%d bits buffered, the code of positions %d..%d" % (k, 64 * c, 64 * c + 63)
        for p, m in I.panics.items():
            self.report(("panic", name), "%s: may panic with %s (%s at %s)" % (name, what, m, p[1]))
            return None
        if not outs:
            self.report(("noreturn", name), "%s: does not return with %s" % (name, what))
            return None
        exp = low + [(c >> j) & 1 for j in range(6)] + [0] * 4
        out = []
        for s, ret in outs:
            if ret is TOP or ret[0] != 'e' or ret[1] != 0:
                self.report(("err", name), "%s: fails although the input holds the code, with %s" % (name, what))
                return None
            got = nbits(ret[2][0], 16) if ret[2][0] is not TOP else [None] * 16
            if any(g is None or reduce(g, s.eqs) != e for g, e in zip(got, exp)):
                self.mismatch(I, ("value", name), "%s: with %s the position returned is another" % (name, what), zip(got, exp), s.eqs)
                return None
            at = s.mem[('rd', 0)][1]
            if k + 8 * at < w:
                self.report(("short", name), "%s: with %s returns before the code has been read" % (name, what))
                return None
            ren = {}
            for j, b in enumerate(seq[w:k + 8 * at]):
                ren[b] = pend(j)
            c2 = mapbits(s.mem[('c', 0)], lambda b: b if b is None else ren.get(b, None))
            out.append((k + 8 * at - w, forget(c2, self.free)))
        return out


def outpairs(written, pos, base, want, wantpos):
    """bits of the output next to those it should have"""
    if pos != wantpos:
        return [(0, 1)]
    out = []
    for k in range(max([len(want)] + [a - base + 1 for a in written])):
        g = written.get(base + k, TOP)
        if base + k not in written:
            return [(0, 1)]
        out += zip([None] * 8 if g is TOP or g is None else nbits(g, 8), nbits(want[k], 8) if k < len(want) else [0] * 8)
    return out


def same(v, want, eqs):
    if v is None or v is TOP:
        return False
    return all(reduce(a, eqs) == reduce(b, eqs) and a is not None for a, b in zip(nbits(v, 8), nbits(want, 8)))
