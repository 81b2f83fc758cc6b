"""Rules on the callers of the codecs: the codec calls are events, not inlined."""
from values import *
from engine import Rule, META, AND, OR
import models
from codecs_ import CODECS, Anchor
from rules import IN, OUT, errkind, tagof, okpair, variant
import lints

BYPATH = {v["path"]: k for k, v in CODECS.items()}


class Caller(Rule):
    """codec calls become events 'codec' (before) and 'codec_done' (after each outcome)"""
    skip = ()

    def model(self, eng, st, c):
        name = BYPATH.get(c.path)
        if name is None or name in self.skip or name == self.entry:
            return None
        ins, outs = models.stream(eng, st, c.args[0]), models.stream(eng, st, c.args[1])
        opt = None
        if len(c.args) > 2:
            o = c.args[2]
            opt = models.target(eng, st, o)[2] if o is not None and o[0] == 'ref' else o
        info = dict(name=name, ins=ins, outs=outs, opt=opt, call=c)
        eng.event(st, c.node, 'codec', **info)
        eng.havoc_ref(st, c.node, c.args[0], 'ci', c.argtys[0])
        eng.havoc_ref(st, c.node, c.args[1], 'co', c.argtys[1])
        for k, sid in ((0, ins[1]), (1, outs[1])):
            if sid is not None:
                models.setpos(eng, st, sid, Ls(eng.freshsym(st, c.node, ('cpos', k), (0, (1 << 64) - 1))))

        def oks(s):
            a = Ls(eng.freshsym(s, c.node, 'cin', (0, (1 << 63) - 1)))
            b = Ls(eng.freshsym(s, c.node, 'cout', (0, (1 << 63) - 1)))
            eng.event(s, c.node, 'codec_done', ok=(a, b), err=None, **info)
            return [(s, ('agg', (a, b)))]
        e1 = st.copy()
        res = [(s, models.ok(v)) for s, v in oks(st)]
        s = eng.freshsym(e1, c.node, ('err', 'codec'))
        eng.event(e1, c.node, 'codec_done', ok=None, err=s, **info)
        res.append((e1, models.err(('u', s, models.errfield_ty(eng, c)))))
        return res


    def option(self, st, info, name, f, w, at):
        e = self.eng
        c = info['call']
        t = e.prog.ty(c.argtys[2])
        vs = e.prog.ty(t.get("e", -1)).get("v")
        if not vs:
            raise Anchor("options of " + name)
        i = next((i for i, x in enumerate(vs[0]["f"]) if x["n"] == f), None)
        if i is None:
            raise Anchor("option %s of %s" % (f, name))
        o = c.args[2]
        got = e.load(st, o[1], o[2] + (('f', i, vs[0]["f"][i]["t"]),)) if o is not None and o[0] == 'ref' else None
        if isinstance(w, int):
            ok = got is not None and (got[0] == 'L' and e.entails(st, C('eq', sub(got, L(w)))) or got[0] != 'L' and got == L(w))
        else:
            vi = next((j for j, x in enumerate(e.prog.ty(vs[0]["f"][i]["t"])["v"]) if x["n"] == w[0]), None)
            ok = got is not None and got[0] == 'en' and got[1] == vi and len(got[2]) == len(w) - 1 and \
                all(x is not None and x[0] == 'L' and e.entails(st, C('eq', sub(x, L(y)))) for x, y in zip(got[2], w[1:]))
        if not ok:
            self.report((self.entry, 'option', name, f), "%s: %s is called at %s with %s = %s, the format requires %s" % (self.entry, name, at, f, show(got) if got else "?", w))


def crcapp(eng, seed, es):
    """crc16 of bytes, with a running crc as seed folded in"""
    if seed is not None and seed[0] == 'L' and seed[1] == 0 and len(seed[2]) == 1 and seed[2][0][1] == 1:
        k = KEY[seed[2][0][0]]
        if k[0] == 'app' and k[1] == 'crc16':
            return crcapp(eng, k[2][0], list(k[2][1][1]) + list(es))
    if not es:
        return seed
    a = (seed, ('arr', tuple(es)))
    return Ls(sym(('app', 'crc16', a), (0, 0xffff), tuple(vsyms(a[0]) | vsyms(a[1]))))


class Td0(Caller):
    HDR = ('g', 'hdr')
    OUTH = ('g', 'outh')

    def __init__(self):
        self.checks, self.codecs, self.refusals, self.writes, self.oks = set(), set(), 0, set(), 0

    def start(self, st):
        p = self.eng.prog
        self.ffm = variant(p, "retrocompressor::Error", "FileFormatMismatch")
        self.badcrc = variant(p, "retrocompressor::Error", "BadChecksum")
        self.sig = (b"td", b"TD") if self.spec["dir"] == "expand" else (b"TD", b"td")
        st.mem[self.HDR] = ('arr', ())
        st.mem[self.OUTH] = ('arr', ())
        self.ncrc = 0

    def model(self, eng, st, c):
        fid = c.callee.get("fn")
        if fid is not None and len(c.args) == 2 and eng.prog.fn(fid).local and [eng.prog.tystr(t) for t in c.argtys] == ["u16", "&[u8]"] \
                and eng.prog.tystr(c.destty) == "u16":
            sl = models.as_slice(eng, st, c.args[1])
            es = models.elems(eng, st, sl) if sl is not None else None
            if es is None or any(e is None or e[0] != 'L' for e in es):
                return None
            if eng.reporting:
                self.checks.add(eng.srcspan(c.node))
            return [(st, crcapp(eng, c.args[0], es))]
        return super().model(eng, st, c)

    def hdr(self, st):
        h = st.mem.get(self.HDR)
        return list(h[1]) if h is not None and h[0] == 'arr' else None

    def sigok(self, h, neg_=False):
        e = [C('eq', sub(h[i], L(self.sig[0][i]))) for i in (0, 1)]
        return e

    def learn(self, st):
        """what a condition settled, remembered beyond the point where the paths it came by meet"""
        h = self.hdr(st)
        out = []
        if h is not None and len(h) == 12 and all(x is not None and x[0] == 'L' for x in h):
            for sign in (True, False):
                if ('sig', not sign) not in st.gh and ('sig', sign) not in st.gh and self.sig_entailed(st, h, sign):
                    out.append(('sig', sign))
                if ('crc', not sign) not in st.gh and ('crc', sign) not in st.gh and self.entails_crc(st, h, sign):
                    out.append(('crc', sign))
        return out

    def on_assume(self, st, b):
        h = self.hdr(st)
        if h is None or len(h) < 5 or any(x is None or x[0] != 'L' for x in h):
            return
        vs = vsyms(b)
        if not any(vs & vsyms(x) for x in h):
            return
        s2 = st.copy()
        if self.eng.assume(s2, b, False):
            for k in self.learn(s2):
                st.gh[k] = True

    def entails_crc(self, st, h, sign):
        """the stored checksum is (sign) / is not the checksum of the first ten bytes"""
        if ('crc', sign) in st.gh:
            return True
        e = self.eng
        crc = crcapp(e, ZERO, h[:10])
        bs = models.bytesof(e, st, crc, 2)
        joined = models.frombytes(e, st, h[10:12], 2, (0, 0xffff))
        d = sub(joined, crc)
        if sign:
            return e.entails(st, C('eq', d)) or all(e.entails(st, C('eq', sub(h[10 + i], bs[i]))) for i in (0, 1))
        return e.entails(st, C('ne', d)) or e.entails(st, OR([C('ne', sub(h[10 + i], bs[i])) for i in (0, 1)]))

    def sig_entailed(self, st, h, sign):
        if ('sig', sign) in st.gh:
            return True
        e = self.eng
        if sign:
            r = all(e.entails(st, x) for x in self.sigok(h))
        else:
            r = e.entails(st, OR([neg(x) for x in self.sigok(h)]))
        if not r:
            # the signature compared as one 16-bit number
            j = models.frombytes(e, st, h[:2], 2, (0, 0xffff))
            k = models.frombytes(e, st, h[:2], 2, (0, 0xffff), False)
            for v, w in ((j, int.from_bytes(self.sig[0], "little")), (k, int.from_bytes(self.sig[0], "big"))):
                r = r or e.entails(st, C('eq' if sign else 'ne', sub(v, L(w))))
        return r

    def accepted(self, st, node, what):
        e = self.eng
        h = self.hdr(st)
        if h is None or len(h) != 12 or any(x is None or x[0] != 'L' for x in h):
            self.report((self.entry, 'unread', what), "%s: %s at %s although the 12-byte header has not been read" % (self.entry, what, e.srcspan(node)))
            return None
        if not self.sig_entailed(st, h, True):
            self.report((self.entry, 'signature', what), "%s: %s at %s is reached without the signature being %r" % (self.entry, what, e.srcspan(node), self.sig[0].decode()))
        if not self.entails_crc(st, h, True):
            self.report((self.entry, 'checksum', what), "%s: %s at %s is reached without the stored checksum having been found right" % (self.entry, what, e.srcspan(node)))
        return h

    def on_event(self, st, node, kind, info):
        e = self.eng
        if kind in ('io_err', 'io_eof'):
            st.gh['failed'] = True
        elif kind == 'codec_done' and info['err'] is not None:
            st.gh['failed'] = True
        elif kind == 'read' and info['stream'] == IN:
            h = self.hdr(st)
            es = models.elems(e, st, info['data']) if info['data'] is not None else None
            if h is None or es is None:
                st.mem[self.HDR] = None
                return
            st.mem[self.HDR] = ('arr', tuple(h) + tuple(es))
        elif kind in ('write', 'shortwrite') and info['stream'] == OUT:
            if e.reporting:
                self.writes.add(e.srcspan(node))
            self.accepted(st, node, "output")
            o = st.mem.get(self.OUTH)
            es = models.elems(e, st, info['data']) if info['data'] is not None else None
            st.mem[self.OUTH] = ('arr', tuple(o[1]) + tuple(es)) if o is not None and es is not None else None
        elif kind == 'codec':
            if e.reporting:
                self.codecs.add(e.srcspan(node))
            h = self.accepted(st, node, "the codec call")
            self.on_codec(st, node, info, h)

    def on_codec(self, st, node, info, h):
        e = self.eng
        if h is None:
            return
        o = st.mem.get(self.OUTH)
        nh = [L(x) for x in self.sig[1]] + h[2:10]
        want = nh + models.bytesof(e, st, crcapp(e, ZERO, nh), 2)
        got = list(o[1]) if o is not None else None
        if got is None or len(got) != 12:
            self.report((self.entry, 'header'), "%s: the codec is called at %s without a 12-byte header having been written" % (self.entry, e.srcspan(node)))
            return
        for i, (a, b) in enumerate(zip(got, want)):
            if a is None or a[0] != 'L' or not e.entails(st, C('eq', sub(a, b))):
                what = "the new signature" if i < 2 else "that of the input" if i < 10 else "the checksum of the new header"
                self.report((self.entry, 'header', i), "%s: byte %d of the header written before %s is %s, not %s" % (self.entry, i, e.srcspan(node), show(a) if a else "unknown", what))
                return

    def on_return(self, st, node, fn, v, top):
        if not top:
            return
        if not tagof(v, 1):
            self.oks += 1
            return
        k = errkind(v)
        h = self.hdr(st)
        if k in (self.ffm, self.badcrc):
            self.refusals += 1
            if h is None or len(h) != 12:
                self.report((self.entry, 'early-refusal'), "%s: the input is refused before its header has been read" % self.entry)
                return
            if k == self.ffm and not self.sig_entailed(st, h, False):
                self.report((self.entry, 'mismatch'), "%s: FileFormatMismatch although the signature may be right" % self.entry)
            if k == self.badcrc and not self.entails_crc(st, h, False):
                self.report((self.entry, 'badcrc'), "%s: BadChecksum although the stored checksum may be right" % self.entry)
            if k == self.badcrc and not self.sig_entailed(st, h, True):
                self.report((self.entry, 'order'), "%s: BadChecksum for a file whose signature may be wrong" % self.entry)
        elif 'failed' not in st.gh:
            self.report((self.entry, 'other-error'), "%s: an error that is neither a stream failure, nor the codec's, nor FileFormatMismatch or BadChecksum" % self.entry)

    counters = {"checks": "checksum_computations", "codecs": "codec_calls", "writes": "header_writes", "refusals": "refusals", "oks": "success_returns"}


class Td0Version(Td0):
    """C09: which codec and which options"""

    def learn(self, st):
        h = self.hdr(st)
        old = C('le', sub(h[4], L(19)))
        return [('old', s) for s in (True, False) if ('old', not s) not in st.gh and self.eng.entails(st, old if s else neg(old))]

    def accepted(self, st, node, what):
        return self.hdr(st)

    def on_return(self, st, node, fn, v, top):
        if not top or tagof(v, 1):
            return
        self.oks += 1
        if st.gh.get('done') != 1:
            self.report((self.entry, 'no-codec'), "%s: success without the body having been converted exactly once" % self.entry)

    def on_event(self, st, node, kind, info):
        super().on_event(st, node, kind, info)
        if kind == 'codec_done':
            st.gh['done'] = st.gh.get('done', 0) + 1

    def on_codec(self, st, node, info, h):
        e = self.eng
        at = e.srcspan(node)
        name = info['name']
        if h is None or len(h) < 5 or h[4] is None or h[4][0] != 'L':
            self.report((self.entry, 'unread', name), "%s: %s is called at %s before the version byte has been read" % (self.entry, name, at))
            return
        old = C('le', sub(h[4], L(19)))
        if ('old', True) in st.gh or e.entails(st, old):
            want = "lzw"
        elif ('old', False) in st.gh or e.entails(st, neg(old)):
            want = "lzss_huff"
        else:
            self.report((self.entry, 'undecided', name), "%s: %s is called at %s for versions on both sides of 20" % (self.entry, name, at))
            return
        want += "::" + self.spec["dir"]
        if name != want:
            self.report((self.entry, 'codec', want), "%s: %s is called at %s where the version calls for %s" % (self.entry, name, at, want))
            return
        if info['ins'][1] != IN or info['outs'][1] != OUT:
            self.report((self.entry, 'streams', name), "%s: %s at %s does not get the caller's streams" % (self.entry, name, at))
        for f, w in lints.FORMATS["retrocompressor::td0::TD_V%d_OPTIONS" % (1 if want.startswith("lzw") else 2)].items():
            self.option(st, info, name, f, w, at)
