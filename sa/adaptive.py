"""C18: the adaptive model both directions of a Huffman codec keep is changed by the same function, at the same point, for the same symbol."""
from values import *
from engine import Rule, Eng, Unsupported
import codecs_, models
from codecs_ import CODECS, Anchor
from rules import tagof
import bitrules
from bitrules import shape, local_fns, callees, rettype, pointee
import codes
from codes import reachable


# ---------------------------------------------------------------- which fields a function changes
def fields(prog, fn, x, written=True):
    """fields of type x a function's own code (not its callees') assigns or borrows mutably"""
    out = set()

    def walk(place):
        t = fn.locals[place[0]]
        ks = []
        for e in place[1]:
            ty = prog.ty(t)
            if e == "*":
                t = ty.get("e", -1) if ty.get("k") in ("ref", "ptr") else (ty.get("args") or [-1])[0]
            elif e[0] == "f":
                if t == x:
                    ks.append(e[1])
                t = e[2]
            elif e[0] in ("i", "c"):
                t = prog.ty(t).get("e", -1)
            elif e[0] == "o":
                t = e[1]
        return ks

    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=":
                out.update(walk(s[1]))
                if s[2][0] == "ref" and s[2][2]:
                    out.update(walk(s[2][1]))
        if b["t"][0] == "call":
            out.update(walk(b["t"][3]))
    return out


def holds(prog, t, x, seen=()):
    """is x the type t or part of it"""
    if t == x:
        return True
    ty = prog.ty(t)
    if t in seen or ty.get("k") not in ("adt", "tuple"):
        return False
    vs = ty.get("v") or []
    return any(holds(prog, f["t"], x, seen + (t,)) for v in vs for f in v["f"])


class Pair:
    """the functions of one codec that code symbols and positions in either direction, and the one that updates the model"""

    def __init__(self, prog, enc, dec):
        self.prog, self.enc, self.dec = prog, enc, dec
        self.entry = {n: prog.fn(self.fid(CODECS[n]["path"])) for n in (enc, dec)}
        self.reach = {n: reachable(prog, self.entry[n].id) for n in (enc, dec)}
        self.coded = {n: self.coding(n) for n in (enc, dec)}
        xs = {n: {self.coder(f) for f in self.coded[n]} for n in (enc, dec)}
        cand = {}
        for n in (enc, dec):
            c = {}
            for i in self.reach[n]:
                f = prog.fn(i)
                if f.local and i not in self.coded[n]:
                    u = self.updater(f)
                    if u is not None and all(any(holds(prog, t, u[0]) for t in xs[m]) for m in (enc, dec)):
                        c[i] = u
            cand[n] = c
        both = set(cand[enc]) & set(cand[dec])
        self.onesided = None
        if not both:
            n = next((n for n in (enc, dec) if cand[n]), None)
            if n is None:
                raise Anchor("the function that updates the model of %s and %s" % (enc, dec))
            m = dec if n == enc else enc
            self.onesided = (n, m, sorted(prog.fn(i).path for i in cand[n])[0])
            return
        # of those, the ones that are not mere parts of another
        part = set()
        for i in both:
            part |= (reachable(prog, i) - {i}) & both
        top = both - part
        if len(top) != 1:
            raise Anchor("one function that updates the model of %s and %s (%s)" % (enc, dec, ", ".join(sorted(prog.fn(i).path for i in top))))
        self.u, = top
        self.ut, self.ux, self.ui = cand[enc][self.u]
        # what it changes
        self.model = set()
        for i in reachable(prog, self.u):
            if prog.fn(i).local:
                self.model |= fields(prog, prog.fn(i), self.ut)
        if not self.model:
            raise Anchor("what %s changes" % prog.fn(self.u).path)
        self.writers = {}
        for i, f in local_fns(prog):
            sh = shape(prog, f)
            if len(sh) == 4 and sh.count('W') == 1 and sh.count('int') == 2 and sum(k.startswith('X:') for k in sh) == 1 and rettype(prog, f).startswith("std::result::Result<()"):
                self.writers[i] = bitrules.Writer.widtharg(None, prog, f, sh)
        self.symbol = {n: self.symbols(n) for n in (enc, dec)}

    def fid(self, path):
        ids = self.prog.find(path)
        if not ids:
            raise Anchor("%s: %d instances" % (path, len(ids)))
        return ids[0]

    def coding(self, n):
        """-> {function: kind} of the innermost (put) or outermost (get) coding functions"""
        l = codes.Lengths()
        l.spec, l.entry, l.entryfn = CODECS[n], n, self.entry[n]
        res = {i: k for i, (k, _, _) in l.find(self.prog, self.reach[n]).items()}
        # those that are not mere parts of the others
        hit, seen, work = set(), {self.entry[n].id}, [self.entry[n].id]
        while work:
            for c in callees(self.prog, self.prog.fn(work.pop())):
                if c in res:
                    hit.add(c)
                elif c not in seen:
                    seen.add(c)
                    work.append(c)
        return {i: k for i, k in res.items() if i in hit}

    def coder(self, i):
        f = self.prog.fn(i)
        return next(int(k[2:]) for k in shape(self.prog, f) if k.startswith('X:'))

    def updater(self, f):
        """(type, index of the model, index of the symbol)"""
        p = self.prog
        sh = shape(p, f)
        if len(sh) != 2 or sh.count('int') != 1:
            return None
        x = next((i for i, k in enumerate(sh) if k.startswith('X:')), None)
        if x is None or not p.ty(f.locals[x + 1]).get("mut"):
            return None
        if rettype(p, f).startswith("std::result::Result<"):
            return None
        return int(sh[x][2:]), x, sh.index('int')

    def symbols(self, n):
        """the symbol functions, taken far enough out that they update the model"""
        p = self.prog
        out = set()
        for i, k in self.coded[n].items():
            if k != 'sym':
                continue
            if self.u in reachable(p, i):
                out.add(i)
                continue
            sh = set(shape(p, p.fn(i)))
            ups = {j for j in self.reach[n] if p.fn(j).local and {i, self.u} <= reachable(p, j) and set(shape(p, p.fn(j))) == sh}
            ups = {j for j in ups if not (reachable(p, j) - {j}) & ups}
            if not ups:
                raise Anchor("the function that codes a symbol of %s and updates the model" % n)
            out |= ups
        return out


class Step(Rule):
    """one symbol function by itself"""
    WHAT, BITS = ('g', 'updated'), ('g', 'bits')
    LONGEST = 22            # the frequencies add up to 0x8000 at most, and a code of n bits needs fibonacci(n+2) of them
    elements = True
    tracked = (WHAT, BITS)
    counters = {"puts": "code_pieces", "updates": "model_updates", "oks": "success_returns", "reads": "model_reads"}

    def __init__(self, pair, n, both):
        self.p, self.n, self.both = pair, n, both
        self.updates, self.reads, self.puts, self.oks = set(), set(), set(), 0

    def rep(self, kind, node, msg):
        self.report((self.entry, kind, self.eng.srcfn(node)), "%s: " % self.entry + (msg % self.eng.srcspan(node) if '%s' in msg else msg))

    def init(self, e, st, fr):
        f, p = self.entryfn, self.eng.prog
        sh = shape(p, f)
        self.sym = None
        if CODECS[self.n]["dir"] == "compress":
            self.sym = st.mem[('l', fr, sh.index('int') + 1)]
            e.assume(st, C('le', scale(self.sym, -1)), False)
            e.assume(st, C('le', sub(self.sym, L(32767))), False)
        st.mem[self.WHAT], st.mem[self.BITS] = ('agg', (ZERO, ZERO)), ZERO

    def core(self, v):
        while v is not None and v[0] == 'L' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            k = KEY[v[2][0][0]]
            if k[0] == 'op' and k[1] == 'cast' and k[3] not in ('u8', 'i8'):
                v = k[2]
            else:
                break
        return v

    def same(self, st, a, b):
        if a is None or b is None or a[0] != 'L' or b[0] != 'L':
            return False
        return any(self.eng.entails(st, C('eq', sub(x, y))) for x in (a, self.core(a)) for y in (b, self.core(b)))

    def ismodel(self, path):
        """a place inside what the update changes"""
        x, vs = self.p.ut, self.eng.prog.ty(self.p.ut).get("v") or []
        t = None
        if self.basety == x and path and path[0][0] == 'f' and path[0][1] in self.p.model:
            return True
        for a, b in zip(path, path[1:]):
            if a[0] == 'f' and a[2] == x and b[0] == 'f' and b[1] in self.p.model:
                return True
        return False

    def on_load(self, st, node, base, path, ty, v):
        if self.ismodel(path):
            if self.eng.reporting:
                self.reads.add(self.eng.srcspan(node))
            if 'updated' in st.gh:
                self.rep('after', node, "the model is read at %s after it has been updated")
        return v

    def on_store(self, st, node, base, path, v):
        if path and path[-1][0] == 'e' and self.ismodel(path) and self.eng.fnof(node[0]).id not in self.both:
            self.rep('store', node, "the model is changed at %s, not by " + self.eng.prog.fn(self.p.u).path)

    def model(self, eng, st, c):
        if c.callee.get("fn") in self.p.writers:
            return self.piece(eng, st, c)
        if c.callee.get("fn") != self.p.u:
            return None
        p, node = eng.prog, c.node
        if eng.reporting:
            self.updates.add(eng.srcspan(node))
        if 'updated' in st.gh:
            self.rep('twice', node, "the model may be updated twice for one symbol, at %s")
        st.gh['updated'] = True
        a = c.args[self.p.ui]
        a2 = a if a is not None and a[0] == 'L' else eng.fresh(st, node, 'upd', c.argtys[self.p.ui])
        k = self.core(a2)
        if self.sym is None and len(k[2]) == 1 and k[2][0][1] == 1:
            # name the symbol after this place, so that it is the same however often the place is passed
            b = eng.quick(st, k)
            f = eng.freshsym(st, node, 'symbol', b)
            st.bnd[f] = b
            rng = eng.intrange(c.argtys[self.p.ui])
            new = Ls(f) if a2 == k or eng.inrange(st, Ls(f), rng) else eng.opsym("cast", Ls(f), p.tystr(c.argtys[self.p.ui]), rng=rng)
            if a2 != k and len(a2[2]) == 1 and a2[2][0][1] == 1:
                eng.equate(st, sub(a2, new), a2[2][0][0])
            eng.equate(st, sub(k, Ls(f)), k[2][0][0])
            a2 = new
        st.mem[self.WHAT] = ('agg', (a2, self.core(a2)))      # both: values may be joined in either form
        if self.sym is not None and not self.same(st, a, self.sym):
            self.rep('symbol', node, "the model may be updated at %s for another symbol than the one written")
        # only the model changes
        base, path, _ = models.target(eng, st, c.args[self.p.ux])
        keep = []
        vs = p.ty(self.p.ut).get("v") or []
        if base is not None and len(vs) == 1:
            for k, f in enumerate(vs[0]["f"]):
                if k not in self.p.model:
                    loc = path + (('f', k, f["t"]),)
                    keep.append((loc, eng.load(st, base, loc)))
        eng.havoc_ref(st, node, c.args[self.p.ux], ('update', 0), c.argtys[self.p.ux])
        for loc, v in keep:
            if v is not None:
                eng.store(st, node, base, loc, v, ('kept', 0))
        t = p.ty(c.destty)
        return [(st, models.UNITV if t.get("k") == "tuple" and not t["f"] else eng.fresh(st, node, 'updres', c.destty))]

    def piece(self, eng, st, c):
        """bits of the symbol's code go to the bit writer (and that is followed)"""
        w, k = self.p.writers[c.callee["fn"]]
        n = c.args[w]
        if eng.reporting:
            self.puts.add(eng.srcspan(c.node))
        if n is None or n[0] != 'L':
            return None
        t = add(st.mem[self.BITS], n)
        room = eng.intrange(c.argtys[k])[1].bit_length()
        if not eng.assume(st, C('le', sub(t, L(self.LONGEST))), False):
            return []
        if not eng.entails(st, C('le', sub(n, L(room)))):
            self.rep('cut', c.node, "more bits of a symbol's code may be written at %s than its " + "%d bits hold" % room)
        st.mem[self.BITS] = t
        st.gh['bits'] = t[1] if isconst(t) else -1      # keeps codes in one and in several pieces apart
        return None

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        if self.eng.reporting:
            self.oks += 1
        if 'updated' not in st.gh:
            self.rep('none', node, "success may be returned without updating the model")
        elif self.sym is None:
            got = v[2][0] if tagof(v, 0) and len(v[2]) == 1 else None
            if not any(self.same(st, got, x) for x in st.mem[self.WHAT][1]):
                self.rep('symbol', node, "the model may be updated for another symbol than the one returned")


class Alphabet(codes.Lengths):
    """how many symbols the coder is made for"""
    counters = {"made": "coders_made"}

    def __init__(self, pair):
        super().__init__()
        self.p, self.made = pair, set()

    def start(self, st):
        super().start(st)
        p = self.eng.prog
        self.makers = {i for i in self.p.reach[self.spec["name"]] if p.fn(i).local and p.fn(i).argc and all(k == 'int' for k in shape(p, p.fn(i)))
                       and holds(p, p.fn(i).locals[0], self.p.ut)}

    def report(self, key, msg):
        if key[1] == 'alphabet':
            super().report(key, msg)

    def model(self, eng, st, c):
        if c.callee.get("fn") not in self.makers:
            return super().model(eng, st, c)
        if eng.reporting:
            self.made.add(eng.srcspan(c.node))
        want = add(sub(self.look, self.thr), L(256))
        if not any(self.same(st, a, want) for a in c.args):
            self.report((self.entry, 'alphabet', eng.srcfn(c.node)), "%s: the coder made at %s may not be for 256 + lookahead - threshold symbols" % (self.entry, eng.srcspan(c.node)))
        return [(st, eng.fresh(st, c.node, 'coder', c.destty))]


def outside(pair, n):
    """changes of the model in a codec's loops other than by the update"""
    p = pair.prog
    allowed = {pair.u}
    bad, looked = {}, set()

    def visit(i):
        if i in looked or i in allowed:
            return
        looked.add(i)
        f = p.fn(i)
        if f.local and fields(p, f, pair.ut) & pair.model:
            bad[i] = f.path
        for c in callees(p, f):
            visit(c)

    seen = set()

    def scan(i, loop):
        """what is reached from a loop of the entry point, or of a function it calls outside loops"""
        if (i, loop) in seen or i in allowed:
            return
        seen.add((i, loop))
        f = p.fn(i)
        if loop:
            visit(i)
            return
        for k, b in enumerate(f.blocks):
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn") is not None:
                scan(t[1]["fn"], incycle(f, k))

    scan(pair.entry[n].id, False)
    return bad, looked


def incycle(f, k):
    seen, work = set(), list(f.succ[k])
    while work:
        b = work.pop()
        if b == k:
            return True
        if b not in seen:
            seen.add(b)
            work.extend(f.succ[b])
    return False


class InStep:
    """C18 on the two directions of one codec"""

    def __init__(self, enc, dec):
        self.enc, self.dec = enc, dec

    def __str__(self):
        return "%s, %s" % (self.enc, self.dec)

    def run(self, lib, bin_):
        from props import cover
        reports, cov = {}, {}

        def more(c):
            for k, v in c.items():
                if isinstance(v, set):
                    cov[k] = cov.get(k, set()) | v
                else:
                    cov[k] = cov.get(k, 0) + v

        pair = Pair(lib, self.enc, self.dec)
        if pair.onesided:
            n, m, u = pair.onesided
            reports[(m, 'never', u)] = "%s: the model is never updated, although %s updates it (%s)" % (m, n, u)
            return reports, {"functions": {u}}, []
        out = {n: outside(pair, n) for n in (self.enc, self.dec)}
        for n in (self.enc, self.dec):
            for i in sorted(pair.symbol[n]):
                fn = lib.fn(i)
                r = Step(pair, n, set(out[self.enc][0]) & set(out[self.dec][0]))
                eng = Eng(lib, [r], None)
                eng.entry, eng.entryfn = fn.path.replace("retrocompressor::", ""), fn
                r.entry, r.spec, r.entryfn = eng.entry, CODECS[n], fn
                x = next(k for k, s in enumerate(shape(lib, fn)) if s.startswith('X:'))
                r.basety = pointee(lib, fn.locals[x + 1])
                eng.run(i, args=[eng.unk2(('arg', 100 + k), fn.locals[k + 1], ()) for k in range(fn.argc)], init=r.init)
                reports.update(eng.reports)
                more(cover(eng, r))
            bad, looked = out[n]
            m = self.dec if n == self.enc else self.enc
            for i, f in bad.items():
                if i not in out[m][0] and not set(out[m][0]) & reachable(lib, i):
                    reports[(n, 'outside', f)] = "%s: %s changes the model while coding, not by %s, and %s does not" % (n, f, lib.fn(pair.u).path, m)
            more({"functions_of_coding_loops": {lib.fn(i).path for i in looked if lib.fn(i).local}})
            for i, k in pair.coded[n].items():
                if k == 'pos':
                    if pair.u in reachable(lib, i):
                        reports[(n, 'position', i)] = "%s: coding a position (%s) updates the model" % (n, lib.fn(i).path)
                    more({"position_functions": {lib.fn(i).path}})
            if CODECS[n]["opts"]:
                r = Alphabet(pair)
                CODECS[n].setdefault("name", n)
                eng = codecs_.run(lib, n, [r])
                reports.update(eng.reports)
                if not r.made:
                    raise Unsupported("%s: where the coder is made" % n)
                more({"coders_made": {(n, x) for x in r.made}})
        return reports, cov, []
