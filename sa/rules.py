"""Path rules over the abstract interpreter: each is an automaton on the events of one codec call."""
from values import *
from engine import Rule, META
import models
from codecs_ import optfield


def tagof(v, n):
    """value is the n-th variant of an enum"""
    return v is not None and v[0] == 'en' and v[1] == n


def okpair(v):
    """Ok((a,b)) -> (a,b)"""
    if tagof(v, 0) and len(v[2]) == 1:
        p = v[2][0]
        if p is not None and p[0] == 'agg' and len(p[1]) == 2:
            return p[1]
        if p is not None and p[0] == 'u':
            return None
    return None


class EofTag(Rule):
    """keeps states that have just met end of input apart from the others"""

    def start(self, st):
        pass

    def on_event(self, st, node, kind, info):
        if kind == 'io_eof' and info['err'] is not None:
            st.gh['eof'] = ('sid', info['err'])
        elif kind == 'read':
            st.gh.pop('eof', None)


class Surface(Rule):
    """C03: a failed stream operation is the result of the call"""

    counters = {'ops': 'fallible_operations', 'rets': 'returns_after_failure'}

    def __init__(self):
        self.ops = set()
        self.rets = 0

    def on_event(self, st, node, kind, info):
        if kind == 'io_err':
            if self.eng.reporting:
                self.ops.add((self.eng.srcspan(node), info['op']))
            if 'pend' not in st.gh:
                st.gh['pend'] = ('sid', info['err'])
                st.gh['pendop'] = info['op']

    def on_return(self, st, node, fn, v, top):
        if not top or 'pend' not in st.gh:
            return
        self.rets += 1
        s = st.gh['pend'][1]
        if tagof(v, 1) and s in vsyms(v):
            return
        op = st.gh.get('pendop')
        what = "success" if not tagof(v, 1) else "an error that is not the failure"
        self.report((self.entry, 'lost', op, KEY[s][1] and self.origin(s)),
                    "%s: a failed %s at %s ends in %s" % (self.entry, op, self.at(s), what))

    def at(self, s):
        k = KEY[s]
        while k[0] not in ('site', 'kl') and len(k) > 1 and isinstance(k[1], int):
            k = KEY[k[1]]
        if k[0] in ('site', 'kl'):
            return self.eng.srcspan(k[1])
        return "?"

    def origin(self, s):
        k = KEY[s]
        if k[0] in ('site', 'kl'):
            return self.eng.srcfn(k[1])
        return "?"

    def on_panic(self, st, node, what):
        if 'pend' in st.gh and what.startswith("call:"):
            s = st.gh['pend'][1]
            self.report((self.entry, 'panic', st.gh.get('pendop'), self.origin(s)),
                        "%s: a failed %s at %s ends in a panic at %s" % (self.entry, st.gh.get('pendop'), self.at(s), self.eng.srcspan(node)))


class Delivered(Rule):
    """C04: success is returned only after every write reached the caller's stream, complete and flushed"""

    counters = {'writes': 'write_sites', 'flushes': 'flush_sites', 'oks': 'success_returns'}

    def __init__(self):
        self.writes = set()
        self.flushes = set()
        self.oks = 0

    def on_event(self, st, node, kind, info):
        if kind == 'write':
            self.writes.add(self.eng.srcspan(node))
            st.gh[('dirty', info['stream'])] = self.eng.srcfn(node)
        elif kind == 'shortwrite':
            self.report((self.entry, 'short', self.eng.srcfn(node)),
                        "%s: write at %s may be cut short and the rest is never written" % (self.entry, self.eng.srcspan(node)))
            st.gh[('dirty', info['stream'])] = self.eng.srcfn(node)
        elif kind == 'flush':
            self.flushes.add(self.eng.srcspan(node))
            st.gh.pop(('dirty', info['stream']), None)

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        self.oks += 1
        for k in st.gh:
            if isinstance(k, tuple) and k[0] == 'dirty':
                self.report((self.entry, 'dirty', st.gh[k]),
                            "%s: success is returned although bytes written in %s were not flushed to the caller's stream" % (self.entry, st.gh[k]))


IN, OUT = ('arg', 0), ('arg', 1)


class Extent(Rule):
    """follows how far the output extends.

    append mode: the next new byte goes at END; `behind` = 1 if the coder stepped back over its last,
    partly filled byte.  patch mode: after an absolute seek to an earlier place, until it returns to END.
    """
    END = ('g', 'end')
    START = ('g', 'start')

    def start(self, st):
        st.gh['xm'] = 'init'

    def setend(self, st, v):
        st.mem[self.END] = v

    def begin(self, st, p):
        st.mem[self.START] = p
        st.mem[self.END] = p
        st.gh['xm'] = 'app'
        st.gh['behind'] = 0

    def on_event(self, st, node, kind, info):
        if kind not in ('write', 'shortwrite', 'seek') or info['stream'] != OUT:
            return
        e = self.eng
        m = st.gh.get('xm')
        if kind == 'seek':
            how, arg, new = info['how'], info['arg'], info['new']
            if m == 'init':
                if how == 'start' or how == 'cur':
                    self.begin(st, new)
                else:
                    st.gh['xm'] = 'lost'
                return
            if m == 'lost':
                return
            end = st.mem.get(self.END)
            if end is None:
                st.gh['xm'] = 'lost'
                return
            if how == 'cur' and m == 'app':
                d = arg
                if isconst(d):
                    b = st.gh['behind'] - d[1]
                    if 0 <= b <= 4:
                        st.gh['behind'] = b
                        return
                st.gh['xm'] = 'patch'
                self.settle(st, new, end)
                return
            if how == 'cur' and m == 'patch':
                return
            st.gh['xm'] = 'patch'
            self.settle(st, new, end)
            return
        if m == 'init':
            self.begin(st, info['pos'])
            m = 'app'
        if m == 'app':
            self.setend(st, add(info['pos'], info['n']))
            st.gh['behind'] = 0

    def settle(self, st, new, end):
        e = self.eng
        if e.entails(st, C('eq', sub(new, end))):
            st.gh['xm'] = 'app'
            st.gh['behind'] = 0
        elif e.entails(st, C('eq', add(sub(new, end), ONE))):
            st.gh['xm'] = 'app'
            st.gh['behind'] = 1


class Sizes(Extent):
    """C05: the pair returned with success"""

    counters = {'oks': 'success_returns'}

    def __init__(self):
        self.oks = 0

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        self.oks += 1
        e = self.eng
        p = okpair(v)
        ent = self.entry
        if p is None or p[0] is None or p[1] is None or p[0][0] != 'L' or p[1][0] != 'L':
            self.report((ent, 'sizes-shape'), "%s: the sizes returned are not determined by the streams" % ent)
            return
        if self.entry == 'lzhuf::decode':
            want = models.getpos(e, st, IN)
        else:
            want = sub(models.streamlen(IN), self.inoff(st))
        if not e.entails(st, C('eq', sub(p[0], want))):
            self.report((ent, 'in-size'), "%s: the input size returned is %s, not %s" % (ent, show(p[0]), show(want)))
        m = st.gh.get('xm')
        if m == 'init':
            # nothing was written and the stream was not positioned
            if p[1] != ZERO and not e.entails(st, C('eq', sub(p[1], models.getpos(e, st, OUT)))):
                self.report((ent, 'out-size-empty'), "%s: an output size of %s is returned although nothing was written" % (ent, show(p[1])))
            return
        if m != 'app' or st.mem.get(self.END) is None or st.mem.get(self.START) is None:
            self.report((ent, 'out-position'), "%s: success is returned with the output stream left inside the output" % ent)
            return
        end = st.mem[self.END]
        got = sub(end, self.outoff(st))
        if not e.entails(st, C('eq', sub(p[1], got))):
            self.report((ent, 'out-size'), "%s: the output size returned is %s, the output occupies %s" % (ent, show(p[1]), show(got)))
        if st.gh['behind'] or not e.entails(st, C('eq', sub(models.getpos(e, st, OUT), end))):
            self.report((ent, 'out-position'), "%s: success is returned with the output stream not at the end of the output" % ent)

    def inoff(self, st):
        return optfield(self.eng, self.entryfn, "in_offset") if self.spec["opts"] else ZERO

    def outoff(self, st):
        return optfield(self.eng, self.entryfn, "out_offset") if self.spec["opts"] else ZERO


class Offsets(Rule):
    """C07: input is taken from in_offset on and output goes to out_offset on, neither ever earlier"""
    counters = {'sites': 'transfer_sites'}

    def __init__(self):
        self.sites = set()

    def start(self, st):
        self.inoff = optfield(self.eng, self.entryfn, "in_offset")
        self.outoff = optfield(self.eng, self.entryfn, "out_offset")

        def rel(sid, off):
            return lambda st: C('le', sub(off, st.mem[models.gpos(sid)])) if models.gpos(sid) in st.mem else None

        def relv(l, off):
            def f(st):
                v = st.mem.get(('l', 0, l))
                return C('le', sub(off, v)) if v is not None and v[0] == 'L' and v[2] else None
            return f
        self.relations = [rel(IN, self.inoff), rel(OUT, self.outoff)]
        # positions are remembered in variables
        for l, t in enumerate(self.entryfn.locals):
            if self.eng.prog.tystr(t) == "u64" and l > self.entryfn.argc:
                self.relations += [relv(l, self.inoff), relv(l, self.outoff)]

    def on_event(self, st, node, kind, info):
        e = self.eng
        if kind == 'seek':
            # stepping back over a byte that was just read or written (never an empty transfer)
            sid = info['stream']
            if info['how'] == 'cur' and info['arg'] == L(-1) and st.gh.get(('moved', sid)):
                e.assume(st, C('le', sub(self.inoff if sid == IN else self.outoff, info['new'])), False)
            st.gh.pop(('moved', sid), None)
            return
        if kind not in ('read', 'write', 'shortwrite'):
            return
        sid = info['stream']
        rd = kind == 'read'
        if sid != (IN if rd else OUT):
            self.report((self.entry, 'wrong-stream', kind, e.srcfn(node)),
                        "%s: %s at %s does not go to the caller's stream" % (self.entry, kind, e.srcspan(node)))
            return
        if e.reporting:
            self.sites.add((kind, e.srcspan(node)))
        off = self.inoff if rd else self.outoff
        what = ("reading", "in_offset") if rd else ("writing", "out_offset")
        st.gh[('moved', sid)] = True
        g = ('first', rd)
        d = sub(info['pos'], off)
        if g not in st.gh:
            st.gh[g] = True
            if not e.entails(st, C('eq', d)):
                self.report((self.entry, 'start', rd, e.srcfn(node)),
                            "%s: %s starts at %s (%s), not at the requested %s" % (self.entry, what[0], show(info['pos']), e.srcspan(node), what[1]))
        elif not e.entails(st, C('le', scale(d, -1))):
            self.report((self.entry, 'before', rd, e.srcfn(node)),
                        "%s: %s at %s may happen before the requested %s" % (self.entry, what[0], e.srcspan(node), what[1]))


def errkind(v):
    """Err(Box(retrocompressor::Error::X)) -> variant index"""
    if not tagof(v, 1) or len(v[2]) != 1:
        return None
    x = v[2][0]
    while x is not None and x[0] == 'box':
        x = x[1]
    if x is not None and x[0] == 'en':
        return x[1]
    return None


class Limit(Rule):
    """C06: nothing is written for an input over the limit; FileTooLarge means over the limit"""

    counters = {'writes': 'write_sites', 'refusals': 'size_refusals'}

    def __init__(self):
        self.writes = set()
        self.refusals = 0

    def bound(self):
        if self.spec["limit"] == "opt":
            return optfield(self.eng, self.entryfn, "max_file_size"), optfield(self.eng, self.entryfn, "in_offset")
        return L(self.spec["limit"]), ZERO

    def over(self):
        mx, off = self.bound()
        return sub(sub(models.streamlen(IN), off), mx)      # > 0 when over

    def on_event(self, st, node, kind, info):
        if kind not in ('write', 'shortwrite') or info['stream'] != OUT:
            return
        e = self.eng
        if e.reporting:
            self.writes.add(e.srcspan(node))
        if not e.entails(st, C('le', self.over())):
            self.report((self.entry, 'unchecked', e.srcfn(node)),
                        "%s: the write at %s is reached with an input larger than the limit" % (self.entry, e.srcspan(node)))

    def on_return(self, st, node, fn, v, top):
        if not top:
            return
        e = self.eng
        if tagof(v, 1):
            if errkind(v) == self.toolarge:
                self.refusals += 1
                if not e.entails(st, C('le', sub(ONE, self.over()))):
                    self.report((self.entry, 'refused'), "%s: an input within the limit is refused as too large" % self.entry)
        elif not e.entails(st, C('le', self.over())):
            self.report((self.entry, 'accepted'), "%s: success for an input larger than the limit" % self.entry)

    def start(self, st):
        self.toolarge = variant(self.eng.prog, "retrocompressor::Error", "FileTooLarge")


def variant(prog, path, name):
    from codecs_ import Anchor
    for t in prog.types:
        if t.get("k") == "adt" and t.get("path") == path:
            for i, v in enumerate(t["v"]):
                if v["n"] == name:
                    return i
    raise Anchor("%s::%s" % (path, name))


def tyid(prog, name):
    from codecs_ import Anchor
    for i, t in enumerate(prog.types):
        if prog.tystr(i) == name:
            return i
    raise Anchor("type " + name)


class LengthOut(Rule):
    """C23: a compressor's length header is the 32-bit little-endian expanded length and comes first"""

    counters = {'headers': 'header_writes', 'oks': 'success_returns'}

    def __init__(self):
        self.headers = set()
        self.oks = 0

    def start(self, st):
        e = self.eng
        n = models.streamlen(IN)
        if self.spec["opts"]:
            n = sub(n, optfield(e, self.entryfn, "in_offset"))
            self.on = optfield(e, self.entryfn, "header")
        else:
            self.on = ONE
        u32, u64 = tyid(e.prog, "u32"), tyid(e.prog, "u64")
        self.want = lambda st: models.bytesof(e, st, e.cast(st, "IntToInt", n, u32, u64), 4)

    def on_event(self, st, node, kind, info):
        if kind not in ('write', 'shortwrite') or info['stream'] != OUT or 'first' in st.gh:
            return
        st.gh['first'] = True
        e = self.eng
        if self.on != ONE and e.entails(st, C('eq', self.on)):
            return
        if self.on != ONE and not e.entails(st, C('eq', sub(self.on, ONE))):
            self.report((self.entry, 'undecided', e.srcfn(node)), "%s: output starts at %s without regard to the header option" % (self.entry, e.srcspan(node)))
            return
        if e.reporting:
            self.headers.add(e.srcspan(node))
        d = info['data']
        es = models.elems(e, st, d) if d is not None else None
        want = self.want(st)
        if es is None or len(es) != 4:
            self.report((self.entry, 'shape', e.srcfn(node)), "%s: the first thing written (%s) is not a 4-byte header" % (self.entry, e.srcspan(node)))
            return
        for i, (a, b) in enumerate(zip(es, want)):
            if a is None or a[0] != 'L' or not e.entails(st, C('eq', sub(a, b))):
                self.report((self.entry, 'value', e.srcfn(node)), "%s: byte %d of the header written at %s is %s, not byte %d of the expanded length" % (self.entry, i, e.srcspan(node), show(a), i))
                return

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        self.oks += 1
        if 'first' not in st.gh and not (self.on != ONE and self.eng.entails(st, C('eq', self.on))):
            self.report((self.entry, 'missing'), "%s: success without having written the header" % self.entry)


class LengthIn(Rule):
    """C27: the declared expanded length decides how far an expander goes"""

    counters = {'reads': 'reads_after_header', 'oks': 'success_returns', 'bare': 'success_returns_without_header'}

    def __init__(self):
        self.reads = set()
        self.oks = 0
        self.bare = 0

    def start(self, st):
        e = self.eng
        if self.spec["opts"]:
            self.on = optfield(e, self.entryfn, "header")
            self.off = optfield(e, self.entryfn, "out_offset")
        else:
            self.on = ONE
            self.off = ZERO
        self.rng = (0, (1 << 32) - 1)

        def rel(st):
            if self.D in st.mem and models.gpos(OUT) in st.mem:
                return C('le', add(sub(sub(st.mem[models.gpos(OUT)], self.off), st.mem[self.D]), ONE))

        def done(st):
            if self.D in st.mem and models.gpos(OUT) in st.mem:
                return C('le', sub(st.mem[self.D], sub(st.mem[models.gpos(OUT)], self.off)))
        self.relations = [rel, done]

    D = ('g', 'declared')

    def on_event(self, st, node, kind, info):
        e = self.eng
        if kind == 'read' and info['stream'] == IN:
            if self.on != ONE and e.entails(st, C('eq', self.on)):
                return
            if self.D not in st.mem:
                st.gh['hdr'] = True
                d = info['data']
                es = models.elems(e, st, d) if d is not None else None
                if es is None or len(es) != 4:
                    self.report((self.entry, 'shape', e.srcfn(node)), "%s: the first thing read (%s) is not a 4-byte header" % (self.entry, e.srcspan(node)))
                    st.mem[self.D] = ZERO
                    return
                st.mem[self.D] = models.frombytes(e, st, es, 4, self.rng) or ZERO
                return
            if e.reporting:
                self.reads.add(e.srcspan(node))
            got = sub(models.getpos(e, st, OUT), self.off)
            if not e.entails(st, C('le', add(sub(got, st.mem[self.D]), ONE))):
                self.report((self.entry, 'over', e.srcfn(node)), "%s: code is read at %s although the declared length may have been reached" % (self.entry, e.srcspan(node)))

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        e = self.eng
        if self.on != ONE and e.entails(st, C('eq', self.on)):
            # no length is known: only the end of the input ends the output (or 4 GiB, which no header could declare)
            if e.reporting:
                self.bare += 1
            got = sub(models.getpos(e, st, OUT), self.off)
            if 'eof' not in st.gh and not e.entails(st, C('le', sub(L((1 << 32) - 1), got))):
                self.report((self.entry, 'early'), "%s: without a length header success may be returned before the input ends" % self.entry)
            return
        self.oks += 1
        if 'eof' in st.gh:
            return
        if self.D not in st.mem:
            self.report((self.entry, 'missing'), "%s: success without having read the header" % self.entry)
            return
        got = sub(models.getpos(e, st, OUT), self.off)
        if not e.entails(st, C('le', sub(st.mem[self.D], got))):
            self.report((self.entry, 'under'), "%s: success may be returned before the declared length is reached and before the input ends" % self.entry)


class Pieces(Rule):
    """C28: a read that returned fewer bytes than asked for is neither the end of the input nor complete"""

    counters = {'sites': 'read_sites', 'parts': 'partial_read_sites', 'rets': 'returns'}

    def __init__(self):
        self.sites, self.parts, self.rets = set(), set(), 0

    @staticmethod
    def got(sid):
        return ('g', 'got', sid)

    @staticmethod
    def lack(sid):
        """minus the number of bytes missing"""
        return ('g', 'lack', sid)

    def open(self, st, sid):
        """the last read may have been cut short"""
        k, n = st.mem.get(self.got(sid)), st.mem.get(self.lack(sid))
        if k is None or k[0] != 'L':
            return False
        s = st.copy()
        if not self.eng.assume(s, C('le', sub(ONE, k))):
            return False
        return n is None or n[0] != 'L' or bool(self.eng.assume(s, C('le', add(n, ONE))))

    def clear(self, st, sid):
        st.mem.pop(self.got(sid), None)
        st.mem.pop(self.lack(sid), None)
        st.gh.pop(('part', sid), None)

    def on_event(self, st, node, kind, info):
        e = self.eng
        sid = info.get('stream')
        if kind == 'read':
            if e.reporting:
                self.sites.add(e.srcspan(node))
            if info.get('part'):
                if e.reporting:
                    self.parts.add(e.srcspan(node))
                st.mem[self.got(sid)] = info['n']
                if info['want'] is not None:
                    st.mem[self.lack(sid)] = sub(info['n'], info['want'])
                else:
                    st.mem.pop(self.lack(sid), None)
                st.gh[('part', sid)] = e.srcspan(node)
                return
            if ('part', sid) in st.gh:
                k, n = st.mem.get(self.got(sid)), st.mem.get(self.lack(sid))
                rest = k is not None and n is not None and k[0] == 'L' and n[0] == 'L' and \
                    e.entails(st, C('eq', add(info['n'], n)))
                if not rest and self.open(st, sid):
                    self.report((self.entry, 'taken', e.srcfn(node)),
                                "%s: the read at %s may return only part of what was asked for, and %s goes on as if it were complete"
                                % (self.entry, st.gh[('part', sid)], e.srcspan(node)))
                self.clear(st, sid)
        elif kind == 'seek' and ('part', sid) in st.gh and info['how'] != 'cur':
            if self.open(st, sid):
                self.report((self.entry, 'left', e.srcfn(node)),
                            "%s: the read at %s may return only part of what was asked for, and %s moves on without reading the rest"
                            % (self.entry, st.gh[('part', sid)], e.srcspan(node)))
            self.clear(st, sid)
        elif kind == 'io_err' and 'pend' not in st.gh:
            st.gh['pend'] = True

    def on_return(self, st, node, fn, v, top):
        if not top:
            return
        self.rets += 1
        if tagof(v, 1) and 'pend' in st.gh:
            return
        for k in [k for k in st.gh if isinstance(k, tuple) and k[0] == 'part']:
            if self.open(st, k[1]):
                self.report((self.entry, 'end', 'error' if tagof(v, 1) else 'success'),
                            "%s: %s may be returned after the read at %s brought only part of what was asked for"
                            % (self.entry, "an error" if tagof(v, 1) else "success", st.gh[k]))
