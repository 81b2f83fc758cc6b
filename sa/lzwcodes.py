"""C20, C25, C29: the codes an LZW stream is made of.  Codes put and got and dictionary operations are events."""
from values import *
from engine import Rule, META
import models
from codecs_ import optfield, Anchor
from rules import IN, OUT, tagof
from td0rule import errkind, variant
from bitrules import shape, local_fns, rettype, pointee
from codes import Coded, deltas, reachable, innermost, outermost, isint

UNIT = ('agg', ())
MAPS = ("std::collections::HashMap::", "std::collections::BTreeMap::", "std::collections::hash_map::", "alloc::collections::BTreeMap::",
        "std::collections::btree_map::", "hashbrown::")


class Lzw(Coded):
    """common part: which functions code, which map is the dictionary"""
    stop = clear = hdr = False
    TMP = ('g', 'tmp')

    def find(self, p, reach):
        enc, dec = {}, {}
        for i, f in local_fns(p):
            if i not in reach:
                continue
            sh = shape(p, f)
            if len([k for k in sh if k.startswith('X:')]) != 1:
                continue
            rt = rettype(p, f)
            ints = tuple(k for k, x in enumerate(sh) if x == 'int')
            if 'W' in sh and rt.startswith("std::result::Result<()") and len(ints) == 2 and len(sh) == 4:
                enc[i] = ints
            elif 'R' in sh and len(sh) == 3 and len(ints) == 1 and isint(rt):
                dec[i] = ints
        res = {}
        for i in innermost(p, enc):
            res[i] = ('put', enc[i], False)
        for i in outermost(p, dec, self.entryfn.id):
            res[i] = ('get', dec[i], True)
        if not any(k == ('put' if self.spec["dir"] == "compress" else 'get') for k, _, _ in res.values()):
            raise Anchor("functions that put and get codes, reachable from %s" % self.entry)
        return res

    def start(self, st):
        super().start(st)
        e = self.eng
        o = lambda n: optfield(e, self.entryfn, n)
        self.width, self.hbits, self.div = o("max_code_width"), o("header_bits"), o("header_divisor")
        self.chunk, self.inoff, self.outoff = o("chunk_size"), o("in_offset"), o("out_offset")
        self.minsym, self.maxsym = o("min_symbol"), o("max_symbol")
        self.pay = {}
        for n, on in (("stop", self.stop), ("clear", self.clear)):
            v = o(n + "_code")
            if v[0] != 'u' or len(e.prog.ty(v[2]).get("v") or ()) != 2:
                raise Anchor("option %s_code" % n)
            e.setdisc(st, v[1], int(on), v[2])
            if on:
                self.pay[n] = e.mkfield(v[1], 1, 0, e.prog.ty(v[2])["v"][1]["f"][0]["t"])
        if self.stop and self.clear:
            e.assume(st, C('ne', sub(self.pay["stop"], self.pay["clear"])), False)
        e.assume(st, C('eq', self.hbits) if not self.hdr else C('le', sub(ONE, self.hbits)), False)
        e.assume(st, C('le', sub(ONE, self.chunk)), False)
        e.assume(st, C('le', sub(ONE, self.width)), False)
        e.assume(st, C('le', sub(self.maxsym, L(255))), False)
        e.assume(st, C('ne', sub(self.width, self.hbits)), False)
        self.usize = self.entryfn and next(t for t in range(len(e.prog.d["types"])) if e.prog.tystr(t) == "usize")

    def model(self, eng, st, c):
        if c.path.startswith(MAPS) or c.path.startswith(tuple('<' + m for m in MAPS)) or any(m[:-2] + '<' in c.path.partition(" as ")[0] for m in MAPS):
            return self.mapcall(eng, st, c)
        return super().model(eng, st, c)

    def mapcall(self, eng, st, c):
        m, A = c.method, c.args
        if m in ("new", "with_capacity", "default"):
            self.newdict(st, c.node)
            return None
        if m == "insert" and len(A) == 3:
            self.inserted(st, c.node, self.ints(st, A[1]), self.ints(st, A[2]))
            return None
        if m == "clear":
            self.newdict(st, c.node)
            return None
        if m in ("contains_key", "get", "index") and len(A) == 2:
            k = self.ints(st, A[1])
            t, f = st.copy(), st
            outs = []
            if self.looked(t, c.node, k, True):
                if m != "contains_key":
                    t.mem[self.TMP] = ('agg', k)
                    v = eng.fresh(t, c.node, 'found', c.destty)
                    if v[0] != 'u' and m == "get":
                        return None
                    x = v
                    if m == "get":
                        eng.setdisc(t, v[1], 1, v[2])
                        v = eng.expand_variant(v, 1)
                        x = v[2][0]
                    k = t.mem.pop(self.TMP)[1]      # values of the last time round may have been renamed
                    self.fetched(t, c.node, k, self.ints(t, x))
                    outs.append((t, v))
                else:
                    outs.append((t, ONE))
            if m != "index" and self.looked(f, c.node, k, False):      # an index that is not there ends it
                outs.append((f, models.NONE if m == "get" else ZERO))
            return outs
        return None

    def ints(self, st, v):
        """the integers a key or an entry is made of"""
        e = self.eng
        if v is not None and v[0] in ('ref', 'u'):
            _, _, v = models.target(e, st, v)
        if v is None:
            return ()
        if v[0] == 'L':
            return (v,)
        if v[0] == 'u':
            v = e.expand(v)
        if v is not None and v[0] == 'agg':
            return tuple(x if x is not None and x[0] == 'L' else None for x in v[1])
        return ()

    def usesmap(self, fn):
        p = self.eng.prog
        cache = p.__dict__.setdefault("map_cache", {})
        if fn.id not in cache:
            cache[fn.id] = False
            for b in fn.blocks:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    c = t[1].get("fn")
                    if (t[1].get("path") or t[1].get("decl") or "").startswith(MAPS) or c is not None and p.fn(c).local and self.usesmap(p.fn(c)):
                        cache[fn.id] = True
        return cache[fn.id]

    def inline(self, fn):
        return True if fn.local and self.usesmap(fn) else None

    def rep(self, key, msg):
        self.report((self.entry,) + key, "%s, %s: %s" % (self.entry, self.config(), msg))

    @classmethod
    def config(cls):
        return ", ".join(n if v else "no " + n for n, v in (("stop code", cls.stop), ("clear code", cls.clear), ("chunk header", cls.hdr)))

    def newdict(self, st, node):
        pass

    def inserted(self, st, node, key, val):
        pass

    def looked(self, st, node, key, found):
        return True

    def fetched(self, st, node, key, val):
        pass

    def eq(self, st, a, b):
        return a is not None and b is not None and a[0] == 'L' and b[0] == 'L' and self.eng.entails(st, C('eq', sub(a, b)))

    def byteeq(self, st, a, b):
        return self.eq(st, a, b) or self.core(a) is not None and self.core(a) == self.core(b)

    def core(self, v):
        """the symbol behind a byte, whatever integer type it has been widened to"""
        if v is not None and v[0] == 'u':
            return v[1]
        if v is not None and v[0] == 'L' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            k = KEY[v[2][0][0]]
            return self.core(k[2]) if k[0] == 'op' and k[1] == 'cast' else v[2][0][0]
        return None

    def le(self, st, a, b):
        return self.eng.entails(st, C('le', sub(a, b)))


class Put(Lzw):
    """C25: what the compressor writes, chunk by chunk"""
    N, HN, HP, END, NEXT, REP, PROD, QUOT, WITH = (('g', x) for x in ("codes", "hcodes", "hpos", "end", "next", "repeat", "hbits", "hvalue", "hcoder"))
    counters = {"puts": "code_writes", "reads": "symbol_reads", "dicts": "new_dictionaries", "oks": "success_returns"}

    def __init__(self):
        self.puts, self.reads, self.dicts, self.oks = set(), set(), set(), 0
        self.headers, self.repeated = {}, set()

    def start(self, st):
        super().start(st)
        for g, v in ((self.N, ZERO), (self.HN, ZERO), (self.HP, self.outoff), (self.END, self.outoff), (self.REP, ZERO), (self.NEXT, self.inoff), (self.PROD, ZERO), (self.QUOT, ZERO)):
            st.mem[g] = v
        num = lambda s, *g: all(s.mem.get(x, UNIT)[0] == 'L' for x in g)
        self.relations = [lambda s: C('le', sub(add(s.mem[self.N], ONE), self.chunk)) if num(s, self.N) else None,
                          lambda s: C('eq', sub(s.mem[self.PROD], self.times(s.copy(), s.mem[self.HN]))) if num(s, self.PROD, self.HN) else None]

    def times(self, st, n):
        return self.eng.binop(st, "MulUnchecked", n, self.width, self.usize, self.entryfn) or ZERO

    def coded(self, st, node, kind, vals, got, sid):
        e = self.eng
        at = e.srcspan(node)
        if e.reporting:
            self.puts.add(at)
        w = [i for i, v in enumerate(vals) if self.eq(st, v, self.width)]
        h = [i for i, v in enumerate(vals) if self.eq(st, v, self.hbits)]
        where = e.srcfn(node)
        before, self.node = self.before, node
        if len(w) == 1:
            self.code(st, where, at, vals[1 - w[0]], before)
        elif len(h) == 1:
            self.header(st, where, at, vals[1 - h[0]], before)
        else:
            self.rep(('width', where), "the code written at %s has neither the width of a code nor that of a chunk header" % at)
            return [st]
        return [st]

    def model(self, eng, st, c):
        # the position at which a code is put
        if c.callee.get("fn") in self.fns:
            self.before = models.getpos(eng, st, OUT)
            self.coder = self.coderstate(st, c)
        return super().model(eng, st, c)

    def header(self, st, where, at, v, pos):
        e = self.eng
        if not self.hdr:
            self.rep(('hdr-off', where), "a chunk header is written at %s although the options have none" % at)
            return
        if 'open' not in st.gh:
            if self.fresh:
                self.rep(('coder', where), "room for a chunk header is left at %s with a coder that knows nothing of the codes before it" % at)
            if not self.eq(st, pos, st.mem[self.END]):
                self.rep(('hdr-place', where), "the room for a chunk header left at %s may not follow the chunk before" % at)
            st.mem[self.HP] = pos
            st.mem[self.WITH] = self.coder
            self.counted(st, ZERO)
            st.gh['open'] = True
            st.mem[self.END] = models.getpos(e, st, OUT)
            return
        if not self.eq(st, pos, st.mem[self.HP]):
            self.rep(('hdr-pos', where), "the chunk header written at %s may not be where room was left for it" % at)
        now = st.copy()
        self.counted(now, st.mem[self.HN])
        k = KEY[v[2][0][0]] if v is not None and v[0] == 'L' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 else ()
        div = k[:2] == ('op', 'Div') and self.eq(st, k[3], self.div) and any(self.eq(st, k[2], x) for x in (now.mem[self.PROD], st.mem[self.PROD]))
        if not (div or self.eq(st, v, now.mem[self.QUOT]) or self.eq(st, v, st.mem[self.QUOT])):
            self.rep(('hdr-value', where), "the chunk header written at %s may not be the bits of the chunk's codes divided by the divisor" % at)
        if not self.alike(st, self.coder, st.mem.get(self.WITH)):
            self.rep(('hdr-coder', where), "the chunk header written at %s may be put in with other bits before it than when room was left for it" % at)
        st.gh.pop('open')
        st.gh['patched'] = self.node
        self.headers[self.node] = (where, at)
        st.mem[self.REP] = models.getpos(e, st, OUT)

    def counted(self, st, n):
        """so many codes in the chunk, so many bits, such a header"""
        e = self.eng
        st.mem[self.HN] = n
        st.mem[self.PROD] = self.times(st, n)
        st.mem[self.QUOT] = e.binop(st, "Div", st.mem[self.PROD], self.div, self.usize, self.entryfn) or ZERO

    def code(self, st, where, at, v, pos):
        e = self.eng
        if 'patched' in st.gh and self.eq(st, pos, st.mem[self.REP]):
            # codes that share bytes with the header just put in front of them, once more
            st.mem[self.REP] = models.getpos(e, st, OUT)
            self.repeated.add(st.gh['patched'])
            return
        if self.fresh:
            self.rep(('coder', where), "the code written at %s is put with a coder that knows nothing of the codes before it" % at)
        if self.hdr and 'open' not in st.gh:
            self.rep(('no-hdr', where), "the code written at %s does not belong to a chunk whose header is still to be written" % at)
        if not self.eq(st, pos, st.mem[self.END]):
            self.rep(('place', where), "the code written at %s may not follow the one before" % at)
        st.mem[self.END] = models.getpos(e, st, OUT)
        self.counted(st, add(st.mem[self.HN], ONE))
        n = st.mem[self.N]
        if 'stopped' in st.gh:
            self.rep(('after-stop', where), "the code written at %s comes after the stop code" % at)
        if self.stop and self.eq(st, v, self.pay["stop"]):
            if 'ended' not in st.gh or 'pend' in st.gh or not self.eq(st, models.getpos(e, st, IN), st.mem[self.NEXT]):
                self.rep(('early-stop', where), "the stop code is written at %s although the input may not have been coded to its end" % at)
            st.gh['stopped'] = True
            return
        if 'cleared' in st.gh:
            self.rep(('stale', where), "the code written at %s comes after the clear code but the dictionary is not a new one" % at)
        if self.clear and self.eq(st, v, self.pay["clear"]):
            if not self.le(st, self.chunk, n):
                self.rep(('early-clear', where), "the clear code is written at %s although the chunk may have fewer codes than configured" % at)
            st.gh['cleared'] = True
            return
        if 'pend' not in st.gh:
            self.rep(('nothing', where), "the code written at %s may stand for no byte of the input" % at)
        if not self.le(st, add(n, ONE), self.chunk):
            self.rep(('long-chunk', where), "the code written at %s may be one more than a chunk has" % at)
        self.data(st, where, at, v)
        st.mem[self.N] = add(n, ONE)
        p = models.getpos(e, st, IN)
        st.mem[self.NEXT] = p if 'ended' in st.gh else sub(p, ONE)
        st.gh.pop('pend', None)

    def data(self, st, where, at, v):
        pass

    def newdict(self, st, node):
        e = self.eng
        at = e.srcspan(node)
        if e.reporting:
            self.dicts.add(at)
        if 'begun' in st.gh:
            where = e.srcfn(node)
            if not self.le(st, self.chunk, st.mem[self.N]):
                self.rep(('early-new', where), "a new dictionary is made at %s although the chunk may have fewer codes than configured" % at)
            if self.clear and 'cleared' not in st.gh:
                self.rep(('unannounced', where), "a new dictionary is made at %s without a clear code" % at)
            if self.hdr and 'patched' not in st.gh:
                self.rep(('unpatched', where), "a new dictionary is made at %s although the header of the chunk has not been written" % at)
        for k in ('cleared', 'patched'):
            st.gh.pop(k, None)
        st.gh['begun'] = True
        st.mem[self.N] = ZERO

    def on_event(self, st, node, kind, info):
        e = self.eng
        if info.get('stream') != IN or self.NEXT not in st.mem:
            return
        if kind in ('read', 'shortread', 'io_eof'):
            if e.reporting:
                self.reads.add(e.srcspan(node))
            if not self.eq(st, models.getpos(e, st, IN), st.mem[self.NEXT]):
                self.rep(('from', e.srcfn(node)), "the byte read at %s may not be the one after what has been coded or matched" % e.srcspan(node))
            if kind == 'io_eof':
                st.gh['ended'] = True
                return
            st.gh['pend'] = True
            st.gh.pop('ended', None)
            st.mem[self.NEXT] = add(st.mem[self.NEXT], info['n'])
        elif kind == 'seek':
            st.gh.pop('ended', None)

    def finish(self):
        for n in sorted(set(self.headers) - self.repeated):
            where, at = self.headers[n]
            self.rep(('clobber', where), "the chunk header written at %s may end within a byte and nothing writes again the codes that begin in it" % at)

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        e = self.eng
        self.oks += 1
        if 'ended' not in st.gh or 'pend' in st.gh or not self.eq(st, models.getpos(e, st, IN), st.mem[self.NEXT]):
            self.rep(('uncoded',), "success although the input may not have been coded to its end")
        if self.stop and 'stopped' not in st.gh:
            self.rep(('no-stop',), "success although the stop code may not have been written")
        if self.hdr and 'patched' not in st.gh:
            self.rep(('open-end',), "success although the header of the last chunk may not have been written")


class Get(Lzw):
    """C20: how the expander takes the codes"""
    V, PREV, BITS, CHB, KEY = (('g', x) for x in ("code", "previous", "bits", "chunkbits", "newkey"))
    counters = {"gets": "code_reads", "writes": "expanded_writes", "dicts": "new_dictionaries", "lookups": "lookups_of_the_code", "entries": "new_entries", "oks": "success_returns", "refusals": "refusals"}

    def __init__(self):
        self.gets, self.writes, self.dicts, self.lookups, self.entries, self.oks, self.refusals = set(), set(), set(), set(), set(), 0, 0

    def start(self, st):
        super().start(st)
        for g in (self.V, self.PREV, self.BITS, self.CHB, self.KEY):
            st.mem[g] = ZERO
        st.gh['at'] = 'begin'
        self.ffm = variant(self.eng.prog, "retrocompressor::Error", "FileFormatMismatch")
        self.relations = [lambda s: C('le', sub(s.mem[self.BITS], L(1 << 62))) if s.mem.get(self.BITS, UNIT)[0] == 'L' else None]

    def coded(self, st, node, kind, vals, got, sid):
        e = self.eng
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.gets.add(at)
        if self.fresh:
            self.rep(('coder', where), "the code read at %s is got with a coder that knows nothing of the codes before it" % at)
        if self.eq(st, vals[0], self.width):
            return self.code(st, where, at, got)
        if self.eq(st, vals[0], self.hbits):
            return self.header(st, where, at, got)
        self.rep(('width', where), "the code read at %s has neither the width of a code nor that of a chunk header" % at)
        return [st]

    def header(self, st, where, at, v):
        if not self.hdr:
            self.rep(('hdr-off', where), "a chunk header is read at %s although the options have none" % at)
            return [st]
        self.settled(st, where, "a chunk header is read at %s" % at)
        if st.gh['at'] == 'body' and not self.over(st):
            self.rep(('hdr-early', where), "a chunk header is read at %s although the chunk before may have more codes" % at)
        if st.gh.get('got') == 'stop':
            self.rep(('after-stop', where), "a chunk header is read at %s after the stop code" % at)
        st.mem[self.CHB] = self.eng.binop(st, "MulUnchecked", self.div, v, self.usize, self.entryfn)
        st.mem[self.BITS] = ZERO
        if st.gh['at'] == 'body':
            st.gh.pop('fresh', None)
        st.gh['at'] = 'begin'
        st.gh['head'] = True
        for k in ('got', 'spent'):
            st.gh.pop(k, None)
        return [st]

    def over(self, st):
        """the chunk has no more codes"""
        return st.gh.get('got') == 'clear' or 'spent' in st.gh or self.hdr and self.le(st, st.mem[self.CHB], st.mem[self.BITS])

    def on_push(self, st, node):
        if self.hdr and st.gh['at'] == 'body' and 'spent' not in st.gh and self.le(st, st.mem[self.CHB], st.mem[self.BITS]):
            st.gh['spent'] = True

    def settled(self, st, where, what):
        g = st.gh
        if g.get('got') == 'data':
            if 'written' not in g:
                self.rep(('unwritten', where), "%s although nothing has been written for the code before it" % what)
            elif g.get('known') is False and not (g.get('added') and self.eq(st, st.mem[self.V], st.mem[self.KEY])):
                self.rep(('unknown', where), "%s although the code before it was not in the dictionary and may not be the one that was added" % what)

    def code(self, st, where, at, v):
        e = self.eng
        g = st.gh
        self.settled(st, where, "a code is read at %s" % at)
        if g.get('got') == 'stop':
            self.rep(('after-stop', where), "the code read at %s comes after the stop code" % at)
        if g.get('got') == 'clear' or 'fresh' not in g:
            self.rep(('stale', where), "the code read at %s begins a chunk but the dictionary is not a new one" % at)
        if self.hdr:
            if 'head' not in g:
                self.rep(('no-hdr', where), "the code read at %s begins a chunk whose header has not been read" % at)
            elif not self.le(st, add(st.mem[self.BITS], ONE), st.mem[self.CHB]):
                self.rep(('beyond', where), "the code read at %s may be beyond the end of the chunk" % at)
        g['at'] = 'body'
        if g.get('got') == 'data':
            st.mem[self.PREV] = st.mem[self.V]
            g['prev'] = True
        for k in ('written', 'known', 'added', 'got', 'spent'):
            g.pop(k, None)
        st.mem[self.V] = v
        outs = []
        rest = st
        for n in ("stop", "clear"):
            if n in self.pay:
                s = rest.copy()
                if e.assume(s, C('eq', sub(v, self.pay[n]))):
                    s.gh['got'] = n
                    outs.append(s)
                if not e.assume(rest, C('ne', sub(v, self.pay[n]))):
                    return outs
        rest.gh['got'] = 'data'
        rest.mem[self.BITS] = add(rest.mem[self.BITS], self.width)
        e.assume(rest, C('le', sub(rest.mem[self.BITS], L(1 << 62))), False)
        outs.append(rest)
        return outs

    def newdict(self, st, node):
        e = self.eng
        g = st.gh
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.dicts.add(at)
        if g['at'] == 'body':
            self.settled(st, where, "a new dictionary is made at %s" % at)
            if not self.over(st):
                self.rep(('early-new', where), "a new dictionary is made at %s although the chunk may have more codes" % at)
            g.pop('head', None)
        g.pop('spent', None)
        for k in ('prev', 'written', 'known', 'added', 'got'):
            g.pop(k, None)
        g['fresh'] = True
        g['at'] = 'begin'
        st.mem[self.BITS] = ZERO

    def looked(self, st, node, key, found):
        if st.gh.get('got') != 'data' or 'written' in st.gh or not any(self.eq(st, k, st.mem[self.V]) for k in key):
            return True
        if self.eng.reporting:
            self.lookups.add(self.eng.srcspan(node))
        k = st.gh.get('known')
        if k is not None and not st.gh.get('added'):
            return k == found
        if k is None:
            st.gh['known'] = found
        return True

    def inserted(self, st, node, key, val):
        g = st.gh
        if g.get('got') is None:
            return
        e = self.eng
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.entries.add(at)
        if g['got'] != 'data':
            self.rep(('entry-for', g['got'], where), "an entry is added at %s for the %s code" % (at, g['got']))
            return
        if 'prev' not in g:
            self.rep(('entry-first', where), "an entry is added at %s for the first code of a chunk" % at)
        elif not any(self.eq(st, v, st.mem[self.PREV]) for v in val):
            self.rep(('entry-base', where), "the entry added at %s may not extend what the code before stands for" % at)
        if 'added' in g:
            self.rep(('entry-twice', where), "a second entry is added at %s for one code" % at)
        if not key or key[0] is None:
            self.rep(('entry-key', where), "nothing is known of the code of the entry added at %s" % at)
            return
        g['added'] = True
        st.mem[self.KEY] = key[0]

    def on_event(self, st, node, kind, info):
        e = self.eng
        if kind == 'io_err':
            st.gh['failed'] = True
        if kind not in ('write', 'shortwrite') or info.get('stream') != OUT:
            return
        g = st.gh
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.writes.add(at)
        if g.get('got') != 'data':
            self.rep(('write', str(g.get('got')), where), "output is written at %s %s" % (
                at, "for the %s code" % g['got'] if g.get('got') else "before a code has been read"))
            return
        if 'known' not in g:
            self.rep(('unchecked', where), "output is written at %s although the code was not looked up" % at)
        elif g['known'] is False and 'prev' not in g:
            self.rep(('nothing-before', where), "output is written at %s for the first code of a chunk although it is not in the dictionary" % at)
        g['written'] = True

    def on_return(self, st, node, fn, v, top):
        if not top:
            return
        e = self.eng
        g = st.gh
        if tagof(v, 1):
            if 'failed' in g:
                return
            if 'eof' in g and not (g.get('got') == 'data' and g.get('known') is False):
                self.rep(('eof-error',), "an error although nothing but the end of the input was met")
            if 'got' not in g:
                return
            self.refusals += 1
            if errkind(v) != self.ffm:
                self.rep(('error',), "an error after a code that is neither a stream failure nor a format mismatch")
            elif g['got'] != 'data' or g.get('known') is not False:
                self.rep(('refused',), "a format mismatch is reported although the code read may be in the dictionary")
            elif 'written' in g:
                self.rep(('refused-late',), "a format mismatch is reported for a code that has been expanded")
            return
        self.oks += 1
        if 'eof' in g:
            self.settled(st, 'end', "success is returned") if g.get('got') == 'data' else None
            return
        if g.get('got') != 'stop':
            self.rep(('early-end',), "success although neither the stop code has been read nor the input has ended")


class Alloc(Lzw):
    """C29: the codes given to strings"""
    LAST = ('g', 'last')
    tracked = (LAST,)
    counters = {"entries": "new_entries", "dicts": "new_dictionaries"}

    def __init__(self):
        self.entries, self.dicts = set(), set()

    def start(self, st):
        super().start(st)
        e = self.eng
        self.finders = {}
        self.top = e.binop(st, "Shl", ONE, self.width, self.usize, self.entryfn)
        st.mem[self.LAST] = L(-1)
        last = lambda f: lambda s: f(s.mem[self.LAST]) if 'any' in s.gh and s.mem.get(self.LAST, UNIT)[0] == 'L' else None
        self.relations = [last(lambda x: C('le', sub(add(self.maxsym, ONE), x))), last(lambda x: C('le', sub(add(x, ONE), self.top)))]

    def havoc(self, eng, st, c, i):
        eng.havoc_ref(st, c.node, c.args[i], ('code', i), c.argtys[i])

    # the paths on which a code is found are kept apart, within one round of a loop
    def on_switch(self, st, node, to):
        if 'used' in st.gh and node[0] != 0 and self.finds(self.eng.fnof(node[0])):
            st.gh['path'] = st.gh.get('path', ()) + ((node, to[1]),)

    def on_push(self, st, node):
        if 'path' in st.gh and node[1] in self.eng.fnof(node[0]).heads:
            st.gh['path'] = tuple(x for x in st.gh['path'] if not self.within(x[0][0], node[0]))
            if not st.gh['path']:
                del st.gh['path']

    def within(self, fr, of):
        while fr is not None and fr != of:
            fr = self.eng.frames[fr][0]
        return fr == of

    def finds(self, fn):
        if fn.id not in self.finders:
            self.finders[fn.id] = fn.local and not any('R' in k or 'W' in k for k in shape(self.eng.prog, fn))
        return self.finders[fn.id]

    def coded(self, st, node, kind, vals, got, sid):
        self.use(st)
        return [st]

    def on_event(self, st, node, kind, info):
        if kind == 'read' and info.get('stream') == IN:
            self.use(st)

    def use(self, st):
        st.gh.pop('path', None)
        st.gh['used'] = True

    def newdict(self, st, node):
        if self.eng.reporting:
            self.dicts.add(self.eng.srcspan(node))
        self.use(st)
        st.gh.pop('used', None)
        st.gh.pop('any', None)
        st.mem[self.LAST] = L(-1)

    def inserted(self, st, node, key, val):
        if 'used' not in st.gh:
            return
        e = self.eng
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.entries.add(at)
        new = (val if self.spec["dir"] == "compress" else key)[:1]
        if not new or new[0] is None:
            self.rep(('opaque', where), "nothing is known of the code given to the entry added at %s" % at)
            return
        k = new[0]
        for n in sorted(self.pay):
            if not e.entails(st, C('ne', sub(k, self.pay[n]))):
                self.rep(('reserved', n, where), "the code given to the entry added at %s may be the %s code" % (at, n))
        if not self.le(st, add(self.maxsym, ONE), k):
            self.rep(('symbol', where), "the code given to the entry added at %s may be that of a single symbol" % at)
        if not self.le(st, add(k, ONE), self.top):
            self.rep(('wide', where), "the code given to the entry added at %s may not fit in the code width" % at)
        if not self.le(st, add(st.mem[self.LAST], ONE), k):
            self.rep(('order', where), "the code given to the entry added at %s may not be greater than the one given before" % at)
        st.mem[self.LAST] = k
        st.gh['any'] = True
        self.use(st)

    def inline(self, fn):
        return True if fn.local else None


class Match(Put):
    """C30, compressing: codes and entries stand for the bytes read.  Framing is Put's business."""
    BYTE, M0, M1, X0, X1, VAL = (('g', x) for x in ("byte", "match0", "match1", "miss0", "miss1", "matchcode"))
    counters = {"codes": "string_codes", "probes": "dictionary_probes", "entries": "new_entries", "roots": "single_symbol_entries"}

    def __init__(self):
        super().__init__()
        self.codes, self.probes, self.entries, self.roots = set(), set(), set(), set()

    def rep(self, key, msg):
        pass

    def bad(self, key, msg):
        super().rep(key, msg)

    def start(self, st):
        super().start(st)
        for g in (self.BYTE, self.M0, self.M1, self.X0, self.X1, self.VAL):
            st.mem[g] = ZERO

    def on_event(self, st, node, kind, info):
        super().on_event(st, node, kind, info)
        if info.get('stream') != IN:
            return
        e = self.eng
        g = st.gh
        if kind == 'seek':
            g.pop('byte', None)
        elif kind == 'read':
            if 'byte' in g:
                self.bad(('skipped', e.srcfn(node)), "another byte is read at %s before the one before it was looked up" % e.srcspan(node))
            b = info.get('data') or info.get('buf')
            es = models.elems(e, st, b) if b is not None else None
            st.mem[self.BYTE] = es[0] if es and es[0] is not None and es[0][0] == 'L' else Ls(e.freshsym(st, node, 'somebyte', (0, 255)))
            g['byte'] = g['begunreading'] = True
            g.pop('miss', None)

    def keyis(self, st, key, a, b):
        return len(key) == 2 and self.eq(st, key[0], st.mem[a]) and self.eq(st, key[1], st.mem[b])

    def hold(self, st, key, a, b):
        for g, k in zip((a, b), tuple(key) + (ZERO, ZERO)):
            st.mem[g] = k if k is not None else ZERO

    def looked(self, st, node, key, found):
        e = self.eng
        g = st.gh
        if 'cur' in g and self.keyis(st, key, self.M0, self.M1):
            return found
        if 'byte' not in g:
            return True
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.probes.add(at)
        b = [i for i, k in enumerate(key) if self.eq(st, k, st.mem[self.BYTE])]
        if 'cur' in g:
            if not ('val' in g and any(i in b and self.eq(st, key[1 - i], st.mem[self.VAL]) for i in range(len(key)) if len(key) == 2)):
                self.bad(('probe', where), "what is looked up at %s may not be the code of the match so far with the byte just read" % at)
        elif not (len(b) == 1 and all(i in b or k is None or isconst(k) and not 0 <= k[1] < 256 for i, k in enumerate(key))):
            self.bad(('root', where), "what is looked up at %s may not be the single byte just read" % at)
        g.pop('byte')
        if found:
            self.hold(st, key, self.M0, self.M1)
            g['cur'] = True
            g.pop('val', None)
            g.pop('miss', None)
        elif 'cur' not in g:
            return False
        else:
            self.hold(st, key, self.X0, self.X1)
            g['miss'] = True
        return True

    def fetched(self, st, node, key, val):
        if 'cur' in st.gh and self.keyis(st, key, self.M0, self.M1) and val and val[0] is not None:
            if 'val' in st.gh:
                self.eng.assume(st, C('eq', sub(val[0], st.mem[self.VAL])), False)
            else:
                st.mem[self.VAL] = val[0]
                st.gh['val'] = True

    def inserted(self, st, node, key, val):
        e = self.eng
        at, where = e.srcspan(node), e.srcfn(node)
        if 'begunreading' not in st.gh:
            if e.reporting:
                self.roots.add(at)
            if not val or not any(self.eq(st, val[0], k) for k in key):
                self.bad(('initial', where), "the entry made at %s before anything is read may not give a symbol its own code" % at)
            return
        if e.reporting:
            self.entries.add(at)
        if 'miss' not in st.gh or not self.keyis(st, key, self.X0, self.X1):
            self.bad(('entry', where), "the entry added at %s may not be the match with the byte that ended it" % at)
        st.gh.pop('miss', None)

    def data(self, st, where, at, v):
        if self.eng.reporting:
            self.codes.add(at)
        if 'byte' in st.gh:
            self.bad(('unseen', where), "the code written at %s comes before the byte just read was looked up" % at)
        elif not ('cur' in st.gh and 'val' in st.gh and self.eq(st, v, st.mem[self.VAL])):
            self.bad(('code', where), "the code written at %s may not be the one of the string matched" % at)
        for k in ('cur', 'val'):
            st.gh.pop(k, None)

    def newdict(self, st, node):
        super().newdict(st, node)
        for k in ('cur', 'val', 'miss', 'byte', 'begunreading'):
            st.gh.pop(k, None)

    def on_return(self, st, node, fn, v, top):
        pass

    def finish(self):
        pass


class Chain(Get):
    """C30, expanding: what is written for a code is made of the entries it is chained to.  Framing is Get's business."""
    CH, AT, SYM, FIRST = (('g', x) for x in ("chain", "lookedup", "entrysym", "firstbyte"))
    counters = {"chains": "chain_lookups", "entries": "new_entries", "writes": "expanded_writes", "roots": "single_symbol_entries"}

    def __init__(self):
        super().__init__()
        self.chains, self.roots = set(), set()

    def rep(self, key, msg):
        pass

    def bad(self, key, msg):
        super().rep(key, msg)

    def start(self, st):
        super().start(st)
        for g in (self.CH, self.AT, self.SYM, self.FIRST):
            st.mem[g] = ZERO

    def code(self, st, where, at, v):
        outs = super().code(st, where, at, v)
        for s in outs:
            s.mem[self.CH] = v
            for k in ('chained', 'sym', 'first', 'pushed'):
                s.gh.pop(k, None)
        return outs

    def fetched(self, st, node, key, val):
        g = st.gh
        e = self.eng
        if g.get('got') != 'data' or 'written' in g:
            return
        at, where = e.srcspan(node), e.srcfn(node)
        if e.reporting:
            self.chains.add(at)
        ok = any(self.eq(st, k, st.mem[self.CH]) for k in key)
        if not ok and 'prev' in g and g.get('known') is False and ('chained' not in g or g['chained'] == 'prev'):
            ok = any(self.eq(st, k, st.mem[self.PREV]) for k in key)      # or the string before
        if not ok:
            self.bad(('chain', where), "the entry looked up at %s may be neither that of the code read nor the one the entry before leads to" % at)
        if not val or val[0] is None or not key or key[0] is None:
            self.bad(('opaque', where), "nothing is known of the entry looked up at %s" % at)
            return
        if 'chained' not in g:
            g['chained'] = 'code' if self.eq(st, key[0], st.mem[self.CH]) else 'prev'
        st.mem[self.AT], st.mem[self.CH] = key[0], val[0]

    def inserted(self, st, node, key, val):
        e = self.eng
        g = st.gh
        at, where = e.srcspan(node), e.srcfn(node)
        super().inserted(st, node, key, val)
        if g.get('got') is None:
            if e.reporting:
                self.roots.add(at)
            if not val or not any(self.eq(st, val[0], k) for k in key):
                self.bad(('initial', where), "the entry made at %s before a code is read may not give a symbol its own code" % at)
            return
        rest = [v for v in val if not self.eq(st, v, st.mem[self.PREV])]
        if len(rest) != 1 or rest[0] is None:
            self.bad(('entry', where), "the entry added at %s may not be the code before with one more byte" % at)
            return
        if 'first' in g:
            if not self.byteeq(st, rest[0], st.mem[self.FIRST]):
                self.bad(('entry-byte', where), "the entry added at %s may not end with the first byte of what has been written for the code" % at)
        else:
            st.mem[self.SYM] = rest[0]
            g['sym'] = node

    def on_event(self, st, node, kind, info):
        super().on_event(st, node, kind, info)
        e = self.eng
        g = st.gh
        if kind != 'write' or info.get('stream') != OUT or g.get('got') != 'data':
            return
        at, where = e.srcspan(node), e.srcfn(node)
        d = info.get('data')
        if 'first' in g:
            return
        b = e.load(st, d[1], d[2] + (('e', d[3]),)) if d is not None and d[0] == 'sl' else None
        if g.get('known') and g.get('chained') != 'code':
            self.bad(('unchained', where), "what is written at %s may not be what the code stands for" % at)
        elif 'chained' in g and not self.le(st, st.mem[self.AT], self.maxsym):
            self.bad(('cut', where), "what is written at %s may leave out the beginning of the string" % at)
        if d is not None and d[0] == 'sl' and (d[1], d[2]) == g.get('pushed'):
            self.bad(('extended', where), "what is written at %s may not be the string before with its own first byte added" % at)
        if 'sym' in g and not self.byteeq(st, b, st.mem[self.SYM]):
            self.bad(('entry-byte', e.srcfn(g['sym'])), "the entry added at %s may not end with the first byte of what is written for the code" % e.srcspan(g['sym']))
        g['first'] = True
        st.mem[self.FIRST] = b if b is not None and b[0] == 'L' else Ls(self.core(b)) if self.core(b) is not None else ZERO

    def model(self, eng, st, c):
        if c.path.startswith("std::vec::Vec::") and c.method == "push" and len(c.args) == 2 and st.gh.get('got') == 'data' and st.gh.get('known') is False:
            base, path, v = models.target(eng, st, c.args[0])
            if base is not None and v is not None:
                x = eng.load(st, base, path + (('e', ZERO),))
                if not self.byteeq(st, c.args[1], x):
                    st.gh['pushed'] = (base, path)
        return super().model(eng, st, c)

    def newdict(self, st, node):
        super().newdict(st, node)
        for k in ('chained', 'sym', 'first', 'pushed'):
            st.gh.pop(k, None)

    def on_return(self, st, node, fn, v, top):
        pass

    def finish(self):
        pass


def make(base, stop, clear, hdr):
    return type("%s%d%d%d" % (base.__name__, stop, clear, hdr), (base,), dict(stop=bool(stop), clear=bool(clear), hdr=bool(hdr)))
