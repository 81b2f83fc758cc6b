"""Rules on the codes a codec puts and gets: the functions that code one symbol, position or LZW code are events, not inlined."""
from values import *
from engine import Rule, Eng, META
import models
from codecs_ import optfield, Anchor
from rules import IN, OUT, tagof
from bitrules import shape, local_fns, callees, rettype, pointee


def reachable(prog, fid):
    seen, work = {fid}, [fid]
    while work:
        for c in callees(prog, prog.fn(work.pop())):
            if c not in seen:
                seen.add(c)
                work.append(c)
        # closures are reached through their types
    return seen


def innermost(prog, cands):
    """candidates that do not call other candidates"""
    return {c for c in cands if not (reachable(prog, c) - {c}) & set(cands)}


def outermost(prog, cands, root):
    """candidates that something else than a candidate calls"""
    r = set()
    for i in reachable(prog, root) - set(cands):
        r |= set(callees(prog, prog.fn(i))) & set(cands)
    return r


def isint(t):
    return t.startswith("std::result::Result<") and t.split("<", 1)[1].split(",")[0] in ("u8", "u16", "u32", "u64", "usize", "i16", "i32", "i64", "isize", "i8")


class Delta(Rule):
    """by how much a function changes the integer fields behind an argument when it succeeds"""

    def __init__(self):
        self.res = None

    def init(self, e, st, fr, i, t):
        self.arg, self.fs = st.mem[('l', fr, i + 1)], []
        vs = e.prog.ty(t).get("v") or []
        base, path, _ = models.target(e, st, self.arg)
        for k, f in enumerate(vs[0]["f"] if len(vs) == 1 else ()):
            if base is not None:
                loc = path + (('f', k, f["t"]),)
                self.fs.append((k, base, loc, e.load(st, base, loc)))

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        r = {}
        for k, base, loc, old in self.fs:
            new = self.eng.load(st, base, loc)
            d = sub(new, old) if new is not None and old is not None and new[0] == old[0] == 'L' else None
            if d is not None and isconst(d):
                r[k] = d[1]
            elif new is not None and new == old and new[0] == 'u' and not self.eng.prog.tystr(new[2]).startswith(("std::vec", "bit_vec")):
                r[k] = 0
        self.res = r if self.res is None else {k: x for k, x in self.res.items() if r.get(k) == x}


def deltas(prog, fid, i):
    cache = prog.__dict__.setdefault("delta_cache", {})
    if (fid, i) not in cache:
        fn = prog.fn(fid)
        t = pointee(prog, fn.locals[i + 1])
        r = Delta()
        eng = Eng(prog, [r], None)
        eng.entry, eng.entryfn = fn.path, fn
        r.entry, r.spec, r.entryfn = fn.path, None, fn
        eng.run(fid, args=[eng.unk2(('arg', 100 + k), fn.locals[k + 1], ()) for k in range(fn.argc)], init=lambda e, st, fr: r.init(e, st, fr, i, t))
        cache[fid, i] = r.res or {}
    return cache[fid, i]


class Coded(Rule):
    """finds the coding functions and turns calls of them into events 'put' and 'get'"""
    CODING = ('g', 'coding')

    def find(self):
        """-> {function: (kind, indices of the integer arguments)}"""
        raise NotImplementedError

    def start(self, st):
        p = self.eng.prog
        cached = p.__dict__.setdefault("coded_cache", {})
        k = (type(self).__name__, self.entryfn.id)
        if k not in cached:
            cached[k] = self.find(p, reachable(p, self.entryfn.id))
        self.fns = cached[k]
        st.mem[self.CODING] = ZERO

    def model(self, eng, st, c):
        fid = c.callee.get("fn")
        h = self.fns.get(fid) if fid is not None else None
        if h is None:
            return None
        kind, ints, rd = h
        w = next((i for i, t in enumerate(c.argtys) if self.isstream(eng.prog, t)), None)
        wr, sid = models.stream(eng, st, c.args[w]) if w is not None else ([], None)
        self.fresh = self.another(st, c)
        for i, t in enumerate(c.argtys):
            if i != w and eng.mutref(t):
                self.havoc(eng, st, c, i)
        vals = [c.args[i] for i in ints]
        eof = rd and "std::io::Bytes<" not in eng.prog.tystr(c.argtys[w])

        def oks(s):
            v = None
            if rd:
                v = eng.fresh(s, c.node, 'code', eng.prog.ty(c.destty)["v"][0]["f"][0]["t"])
                if v[0] == 'L':
                    eng.assume(s, C('le', scale(v, -1)), False)
            if sid is not None:
                models.setpos(eng, s, sid, Ls(eng.freshsym(s, c.node, 'codepos', (0, (1 << 64) - 1))))
            s.mem[self.CODING] = ONE
            outs = []
            for q in self.coded(s, c.node, kind, vals, v, sid):
                outs.append((q, v if rd else models.UNITV))
            return outs
        return models.outcomes(eng, st, c, oks, eof=eof, op='code', sid=sid, wr=wr)

    def havoc(self, eng, st, c, i):
        fid = c.callee["fn"]
        base, path, v = models.target(eng, st, c.args[i])
        t = pointee(eng.prog, c.argtys[i])
        keep = []
        vs = eng.prog.ty(t).get("v") or []
        if base is not None and len(vs) == 1:
            for k, d in deltas(eng.prog, fid, i).items():
                loc = path + (('f', k, vs[0]["f"][k]["t"]),)
                old = eng.load(st, base, loc)
                if old is not None and (d == 0 or old[0] == 'L'):
                    keep.append((base, loc, add(old, L(d)) if d else old))
        eng.havoc_ref(st, c.node, c.args[i], ('code', i), c.argtys[i])
        for base, loc, x in keep:
            eng.store(st, c.node, base, loc, x, ('count', i))

    def coderstate(self, st, c):
        """the coder a code is put with, its counters aside"""
        e = self.eng
        for i, k in enumerate(shape(e.prog, e.prog.fn(c.callee["fn"]))):
            if k.startswith('X:'):
                _, _, v = models.target(e, st, c.args[i])
                if v is not None and v[0] == 'u':
                    v = e.expand(v)
                if v is not None and v[0] == 'agg':
                    d = deltas(e.prog, c.callee["fn"], i)
                    return ('agg', tuple(ZERO if d.get(j) else x for j, x in enumerate(v[1])))
        return None

    def same(self, st, a, b):
        return a is not None and b is not None and a[0] == 'L' and b[0] == 'L' and self.eng.entails(st, C('eq', sub(a, b)))

    def alike(self, st, a, b):
        if a is None or b is None or a[0] != b[0] or a[0] == 'u':
            return True
        if a[0] == 'L':
            return self.same(st, a, b)
        if a[0] == 'agg':
            return len(a[1]) == len(b[1]) and all(self.alike(st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'en':
            return a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.alike(st, x, y) for x, y in zip(a[2], b[2]))
        if a[0] == 'vec':
            return self.same(st, a[1], b[1])      # every code put leaves a new length nothing is known of
        return True

    def pristine(self, v):
        """a coder that has coded nothing: is there anything in it, and is all of it constant"""
        if v is None or v[0] not in ('L', 'agg', 'en', 'vec'):
            return False, True
        if v[0] in ('L', 'vec'):
            v = v if v[0] == 'L' else v[1]
            return True, isconst(v)
        r = [self.pristine(x) for x in v[1 if v[0] == 'agg' else 2]]
        return any(x for x, _ in r), all(y for _, y in r)

    def another(self, st, c):
        """codes have been put or got, and this one is with a coder that knows nothing of them"""
        return st.mem.get(self.CODING, ZERO) != ZERO and self.pristine(self.coderstate(st, c)) == (True, True)

    def isstream(self, prog, t):
        e = pointee(prog, t)
        return e is not None and prog.tystr(e).startswith(("std::io::BufWriter<", "std::io::BufReader<", "std::io::Bytes<"))

    def coded(self, st, node, kind, vals, got, sid):
        """the event; -> states to go on with"""
        return [st]


class Lengths(Coded):
    """C21: literals and matches, and the lengths they stand for"""
    G = ('g', 'outstanding')
    LIT = ('g', 'literal')
    eqsub = True
    tracked = (G,)
    counters = {"puts": "symbol_writes", "gets": "symbol_reads", "poss": "position_codes", "oks": "success_returns", "writes": "expanded_writes"}

    def __init__(self):
        self.puts, self.gets, self.poss, self.oks, self.writes = set(), set(), set(), 0, set()

    def find(self, p, reach):
        enc, dec = {}, {}
        prim = set()
        for i, f in local_fns(p):
            if i not in reach:
                continue
            sh = shape(p, f)
            if len([k for k in sh if k.startswith('X:')]) != 1:
                continue
            rt = rettype(p, f)
            if 'W' in sh and rt.startswith("std::result::Result<()"):
                if len(sh) == 3 and sh.count('int') == 1:
                    enc[i] = (sh.index('int'),)
                elif sh.count('int') == 2 and len(sh) == 4:
                    prim.add(i)
            elif 'R' in sh and len(sh) == 2 and isint(rt):
                dec[i] = ()
        # what the writers of codes are made of
        for q in prim:
            if not any(c in reachable(p, q) for c in enc if "char" in p.fn(c).path.lower() or "pos" in p.fn(c).path.lower()):
                for c in reachable(p, q):
                    enc.pop(c, None)
        if self.spec["dir"] == "compress":
            dec = {}
        else:
            enc = {}
        res = {}
        for i in innermost(p, enc):
            res[i] = ('pos' if "pos" in p.fn(i).path.split("::")[-1].lower() else 'sym', enc[i], False)
        for i in outermost(p, dec, self.entryfn.id):
            res[i] = ('pos' if "pos" in p.fn(i).path.split("::")[-1].lower() else 'sym', (), True)
        if {k for k, _, _ in res.values()} != {'pos', 'sym'}:
            raise Anchor("functions that code symbols and positions, reachable from %s" % self.entry)
        return res

    def start(self, st):
        super().start(st)
        e = self.eng
        if self.spec["opts"]:
            self.thr, self.look = optfield(e, self.entryfn, "threshold"), optfield(e, self.entryfn, "lookahead")
            self.inoff = optfield(e, self.entryfn, "in_offset")
            e.assume(st, C('le', sub(self.thr, L(255))), False)
            e.assume(st, C('le', sub(self.look, L(30000))), False)
            e.assume(st, C('le', sub(ONE, self.look)), False)
            e.assume(st, C('le', sub(self.thr, self.look)), False)
        else:
            self.thr, self.look, self.inoff = L(2), L(60), ZERO
        if self.spec["dir"] == "compress":
            st.mem[self.G] = sub(models.getpos(e, st, IN), self.inoff)
        else:
            st.mem[self.G] = ZERO
        self.relations = [lambda s: C('le', scale(s.mem[self.G], -1)) if self.G in s.mem and s.mem[self.G][0] == 'L' else None]

    def split(self, st, v):
        """-> [(state, is it a match)]"""
        e = self.eng
        a, b = st.copy(), st
        out = []
        if e.assume(a, C('le', sub(v, L(255)))):
            out.append((a, False))
        if e.assume(b, C('le', sub(L(256), v))):
            out.append((b, True))
        return out

    def coded(self, st, node, kind, vals, got, sid):
        if self.fresh:
            self.report((self.entry, 'coder', self.eng.srcfn(node)), "%s: the code at %s may be put or got with a coder that knows nothing of the codes before it"
                        % (self.entry, self.eng.srcspan(node)))
        return self.put(st, node, kind, vals[0]) if got is None else self.get(st, node, kind, got)

    def put(self, st, node, kind, v):
        e = self.eng
        at = e.srcspan(node)
        if kind == 'pos':
            if e.reporting:
                self.poss.add(at)
            if st.gh.pop('owed', None) is None:
                self.report((self.entry, 'stray', e.srcfn(node)), "%s: the position written at %s does not follow the symbol of a match" % (self.entry, at))
            return [st]
        if e.reporting:
            self.puts.add(at)
        if 'owed' in st.gh:
            self.report((self.entry, 'owed', e.srcfn(node)), "%s: a symbol is written at %s although the position of the match before it is not" % (self.entry, at))
            st.gh.pop('owed')
        if v is None or v[0] != 'L':
            self.report((self.entry, 'opaque', e.srcfn(node)), "%s: nothing is known of the symbol written at %s" % (self.entry, at))
            return [st]
        outs = []
        for s, match in self.split(st, v):
            n = ONE
            if match:
                s.gh['owed'] = True
                n = add(sub(v, L(255)), self.thr)
                if not e.entails(s, C('le', sub(n, self.look))):
                    self.report((self.entry, 'long', e.srcfn(node)), "%s: the symbol written at %s may stand for more than the longest match" % (self.entry, at))
            g = s.mem[self.G]
            if not e.entails(s, C('le', sub(n, g))):
                self.report((self.entry, 'beyond', match, e.srcfn(node)), "%s: the %s written at %s may stand for more bytes than have been read and not coded yet"
                            % (self.entry, "match" if match else "literal", at))
            s.mem[self.G] = sub(g, n)
            outs.append(s)
        return outs

    def get(self, st, node, kind, v):
        e = self.eng
        at = e.srcspan(node)
        if kind == 'pos':
            if e.reporting:
                self.poss.add(at)
            if st.gh.get('mode') != 'match':
                self.report((self.entry, 'stray', e.srcfn(node)), "%s: a position is read at %s although the symbol before it is not that of a match" % (self.entry, at))
            st.gh['mode'] = 'copy'
            return [st]
        if e.reporting:
            self.gets.add(at)
        self.settled(st, node, "the next symbol is read at %s" % at)
        outs = []
        for s, match in self.split(st, v):
            s.gh['mode'] = 'match' if match else 'lit'
            s.mem[self.G] = add(sub(v, L(255)), self.thr) if match else ONE
            s.mem[self.LIT] = ZERO if match else v
            outs.append(s)
        return outs

    def settled(self, st, node, what):
        e = self.eng
        if st.gh.get('mode') == 'match':
            self.report((self.entry, 'nopos', e.srcfn(node)), "%s: %s although the position of a match has not been read" % (self.entry, what))
        elif not e.entails(st, C('eq', st.mem[self.G])):
            self.report((self.entry, 'count', e.srcfn(node)), "%s: %s although the symbol before it may not have been expanded to just its length" % (self.entry, what))

    def on_event(self, st, node, kind, info):
        e = self.eng
        if self.G not in st.mem:
            return
        if self.spec["dir"] == "compress":
            if info.get('stream') != IN:
                return
            if kind == 'io_eof':
                st.gh['ended'] = True
            elif kind in ('read', 'seek'):
                st.gh.pop('ended', None)
            if kind == 'read':
                st.mem[self.G] = add(st.mem[self.G], info['n'])
            elif kind == 'seek':
                st.mem[self.G] = add(st.mem[self.G], sub(info['new'], models.getpos(e, st, IN)))
            return
        if kind not in ('write', 'shortwrite') or info.get('stream') != OUT:
            return
        at = e.srcspan(node)
        if e.reporting:
            self.writes.add(at)
        m = st.gh.get('mode')
        if m not in ('lit', 'copy'):
            self.report((self.entry, 'early', e.srcfn(node)), "%s: output is written at %s %s" % (
                self.entry, at, "before the position of the match has been read" if m == 'match' else "before any symbol has been read"))
            return
        g = sub(st.mem[self.G], info['n'])
        if not e.entails(st, C('le', scale(g, -1))):
            self.report((self.entry, 'over', m, e.srcfn(node)), "%s: the write at %s may exceed the length the symbol stands for" % (self.entry, at))
        if m == 'lit':
            d = info['data']
            es = models.elems(e, st, d) if d is not None else None
            if es is None or len(es) != 1 or es[0] is None or es[0][0] != 'L' or not e.entails(st, C('eq', sub(es[0], st.mem[self.LIT]))):
                self.report((self.entry, 'literal', e.srcfn(node)), "%s: what is written at %s is not the literal that was read" % (self.entry, at))
        st.mem[self.G] = g

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        e = self.eng
        self.oks += 1
        if self.spec["dir"] == "compress":
            if 'owed' in st.gh:
                self.report((self.entry, 'owed-end'), "%s: success although the position of the last match has not been written" % self.entry)
            if not e.entails(st, C('eq', st.mem[self.G])):
                self.report((self.entry, 'uncoded'), "%s: success although the lengths coded may not add up to what was read" % self.entry)
            if 'ended' not in st.gh and not e.entails(st, C('eq', sub(models.getpos(e, st, IN), models.streamlen(IN)))):
                self.report((self.entry, 'unread'), "%s: success although the input may not have been read to its end" % self.entry)
        elif 'eof' not in st.gh:
            self.settled(st, node, "success is returned")
