"""Rules on the slice wrappers and on the program."""
from values import *
from engine import META
import models
from codecs_ import CODECS, Anchor
from rules import tagof
from td0rule import Caller


class Slices(Caller):
    """C16: X_slice(slice, opt) is X on a cursor over the slice and a fresh cursor"""
    RES = ('g', 'result')

    def __init__(self, name):
        self.name = name
        self.calls, self.oks, self.errs = set(), 0, 0
    counters = {"calls": "codec_calls", "oks": "success_returns", "errs": "error_returns"}

    def start(self, st):
        st.mem[self.RES] = ('str', 'none')
        st.gh['n'] = 0

    def model(self, eng, st, c):
        if c.path.startswith("std::io::Cursor::<T>::"):
            m = c.method
            a = c.args[0]
            if m == "new":
                return [(st, ('agg', (a, ZERO)))]
            if m == "into_inner" and a is not None:
                if a[0] == 'u':
                    a = eng.expand(a)
                if a is not None and a[0] == 'agg':
                    return [(st, a[1][0])]
            if m in ("get_ref", "get_mut") and a is not None and a[0] == 'ref':
                ft = eng.prog.ty(c.destty).get("e", -1)
                return [(st, ('ref', a[1], a[2] + (('f', 0, ft),)))]
            if m == "position" and a is not None and a[0] == 'ref':
                v = eng.load(st, a[1], a[2])
                if v is not None and v[0] == 'agg' and v[1][1] is not None:
                    return [(st, v[1][1])]
            if m == "set_position" and a is not None and a[0] == 'ref':
                v = eng.load(st, a[1], a[2])
                if v is not None and v[0] == 'agg':
                    eng.store(st, c.node, a[1], a[2], ('agg', (v[1][0], c.args[1])), 'setpos')
                    return [(st, models.UNITV)]
        return super().model(eng, st, c)

    def cursor(self, st, v):
        v = models.target(self.eng, st, v)[2] if v is not None and v[0] == 'ref' else v
        if v is None or v[0] != 'agg' or len(v[1]) != 2:
            return None
        return v[1]

    def on_event(self, st, node, kind, info):
        e = self.eng
        if kind in ('io_err', 'io_eof', 'write', 'shortwrite', 'read') and 'n' in st.gh and info.get('stream') is not None:
            return
        if kind == 'codec':
            at = e.srcspan(node)
            if e.reporting:
                self.calls.add(at)
            st.gh['n'] = min(2, st.gh['n'] + 1)
            if info['name'] != self.name:
                self.report((self.entry, 'codec', info['name']), "%s calls %s at %s, not %s" % (self.entry, info['name'], at, self.name))
                return
            c = info['call']
            a0 = self.cursor(st, c.args[0])
            want = st.mem.get(('l', 0, 1))
            ok = a0 is not None and a0[0] is not None and a0[1] == ZERO and e.deep(st, a0[0]) == e.deep(st, self.slice0)
            if not ok:
                self.report((self.entry, 'input'), "%s: the input given to %s at %s is not the whole slice" % (self.entry, self.name, at))
            a1 = self.cursor(st, c.args[1])
            v = a1[0] if a1 is not None else None
            if v is not None and v[0] == 'ref':
                st.gh['outref'] = v
                self.outty = e.prog.ty(c.argtys[1]).get("e", -1)
                self.outty = e.prog.ty(self.outty)["v"][0]["f"][0]["t"]
                v = models.target(e, st, v)[2]
            if v is None or v[0] != 'vec' or v[1] != ZERO or a1[1] != ZERO:
                self.report((self.entry, 'output'), "%s: the output given to %s at %s is not a fresh empty buffer" % (self.entry, self.name, at))
            if len(c.args) > 2:
                o = models.target(e, st, c.args[2])
                if c.args[2] != self.opt0 and (o[2] is None or e.deep(st, o[2]) != e.deep(st, models.target(e, st, self.opt0)[2])):
                    self.report((self.entry, 'options'), "%s: the options given to %s at %s are not the caller's" % (self.entry, self.name, at))
        elif kind == 'codec_done':
            if info['err'] is not None:
                st.gh['err'] = ('sid', info['err'])
            else:
                a1 = self.cursor(st, info['call'].args[1])
                if a1 is None:
                    v = models.target(e, st, info['call'].args[1])[2]
                    if v is not None and v[0] == 'u':
                        a1 = e.expand(v)[1]
                v = a1[0] if a1 is not None else None
                if 'outref' in st.gh:
                    # a cursor over a borrowed buffer: what was written is in that buffer
                    r = st.gh['outref']
                    self.eng.havoc_ref(st, node, r, 'cb', self.outty)
                    v = models.target(self.eng, st, r)[2]
                st.mem[self.RES] = v

    def on_return(self, st, node, fn, v, top):
        if not top:
            return
        e = self.eng
        if tagof(v, 1):
            self.errs += 1
            s = st.gh.get('err')
            if s is None or s[1] not in vsyms(v):
                self.report((self.entry, 'error'), "%s returns an error that is not that of %s" % (self.entry, self.name))
            return
        self.oks += 1
        if 'err' in st.gh:
            self.report((self.entry, 'swallowed'), "%s returns success although %s failed" % (self.entry, self.name))
        elif st.gh['n'] != 1:
            self.report((self.entry, 'calls'), "%s returns success without having called %s exactly once" % (self.entry, self.name))
        elif not tagof(v, 0) or v[2][0] is None or self.norm(st, v[2][0]) != self.norm(st, st.mem.get(self.RES)):
            self.report((self.entry, 'result'), "%s returns something other than what %s wrote" % (self.entry, self.name))

    def norm(self, st, v):
        return self.eng.deep(st, v) if v is not None else None
