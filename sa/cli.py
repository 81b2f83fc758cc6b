"""Rules on the program: which files it opens, when, and what its exit status means."""
from values import *
from engine import META
import models
from codecs_ import CODECS, Anchor
from rules import tagof, IN, OUT
from td0rule import Caller
import lints

ARGS = ("input", "output", "method")
SAME = ("as_str", "deref", "as_ref", "borrow", "new", "as_path", "as_os_str", "as_mut_str", "as_deref")
COPY = ("clone", "to_string", "to_owned", "into", "from", "to_path_buf", "into_string", "to_str", "display", "into_boxed_str", "as_deref")
TRIM = ("trim", "trim_end", "trim_end_matches", "trim_right", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_start",
        "trim_matches")
FLAGS = ("read", "write", "append", "truncate", "create", "create_new")
METHODS = {
    ("compress", "lzw"): ("lzw::compress", "retrocompressor::lzw::STD_OPTIONS"),
    ("compress", "lzss_huff"): ("lzss_huff::compress", "retrocompressor::lzss_huff::STD_OPTIONS"),
    ("compress", "lzhuf-port"): ("lzhuf::encode", None),
    ("compress", "td0"): ("td0::compress", None),
    ("expand", "lzw"): ("lzw::expand", "retrocompressor::lzw::STD_OPTIONS"),
    ("expand", "lzss_huff"): ("lzss_huff::expand", "retrocompressor::lzss_huff::STD_OPTIONS"),
    ("expand", "lzhuf-port"): ("lzhuf::decode", None),
    ("expand", "td0"): ("td0::expand", None),
}
YES = ("y",)


class Cli(Caller):
    """common part: values that come from the command line, the answer on stdin, files"""
    OUTSIZE = ('g', 'outsize')

    def start(self, st):
        st.mem[self.OUTSIZE] = None
        st.gh['n'] = 0
        self.opens, self.codecs, self.oks, self.exists, self.errs = set(), set(), 0, set(), 0
    counters = {"opens": "file_operations", "codecs": "codec_calls", "oks": "success_exits", "errs": "failure_exits", "exists": "existence_tests"}

    def inline(self, fn):
        if fn.local:
            return True
        return None

    def keep_through(self, st, cur, ref):
        return cur is not None and cur[0] == 'u' and KEY[cur[1]][0] in ('file', 'clapstr')

    # -- tags
    def clapv(self, st, name):
        """reference to the value of a command-line argument"""
        s = sym(('clap', name), None)
        b = ('d', s)
        st.mem[b] = ('u', sym(('clapstr', name), None), -1)
        return ('ref', b, ())

    def tag(self, st, v):
        """('clapstr', name) / ('line', ...) behind a value or reference"""
        _, _, x = models.target(self.eng, st, v)
        if x is not None and x[0] == 'u' and KEY[x[1]][0] in ('clapstr', 'line'):
            return KEY[x[1]]
        if x is not None and x[0] == 'box':
            return self.tag(st, x[1])
        if x is not None and x[0] == 'en' and len(x[2]) == 1:
            return self.tag(st, x[2][0])
        return None

    def pathname(self, st, v):
        t = self.tag(st, v)
        return t[1] if t is not None and t[0] == 'clapstr' else None

    def fileof(self, st, v):
        """('file', argument name, writable, truncated)"""
        sid = models.stream(self.eng, st, v)[1]
        if sid is not None and sid[0] == 'v' and KEY[sid[1]][0] == 'file':
            return KEY[sid[1]]
        _, _, x = models.target(self.eng, st, v)
        for _ in range(4):
            if x is not None and x[0] == 'w' and x[1] == 'Cursor' and (x[3] == (ZERO,) or not x[3]):
                x = x[2]
            if x is None or x[0] not in ('ref', 'w'):
                break
            if x[0] == 'ref':
                _, _, x = models.target(self.eng, st, x)
        if x is not None and x[0] == 'u' and KEY[x[1]][0] == 'file':
            return KEY[x[1]]
        return None

    def refto(self, st, x, k):
        s = sym(('tmpref', k, x), None)
        st.mem[('d', s)] = x
        return ('ref', ('d', s), ())

    def flags(self, st, v):
        _, _, x = models.target(self.eng, st, v)
        if x is not None and x[0] == 'agg' and len(x[1]) == len(FLAGS):
            return x[1]
        return None

    def may(self, f):
        return f != ZERO

    def must(self, f):
        return f is not None and f == ONE

    # -- hooks
    def opened(self, st, c, name, write, trunc, excl):
        pass

    def destroys(self, st, c, what, name):
        pass

    def setlen(self, st, c, f, n):
        pass

    def exits(self, st, node, code):
        pass

    def io(self, eng, st, c, okv, on_ok=None):
        """a fallible operation of the program itself"""
        e1 = st.copy()
        s = eng.freshsym(e1, c.node, ('err', 'cli'))
        META[s] = {'ioerr': True, 'eof': False}
        e1.gh['failed'] = True
        if on_ok:
            on_ok(st)
        return [(st, models.ok(okv)), (e1, models.err(('u', s, models.errfield_ty(eng, c))))]

    def seteq(self, st, t, const):
        """outcomes of comparing a tagged string with a constant: list of (state, equal)"""
        outs = []
        if t[0] == 'clapstr' and t[1] == 'method':
            known = st.gh.get('method')
            if known is not None:
                return [(st, known == const)]
            if const in st.gh.get('notm', ()):
                return [(st, False)]
            s = st.copy()
            s.gh['method'] = const
            s.gh.pop('notm', None)
            st.gh['notm'] = tuple(sorted(st.gh.get('notm', ()) + (const,)))
            return [(s, True), (st, False)]
        s = st.copy()
        if t[0] == 'line':
            s.gh['yes'] = const.strip().lower() in YES
        return [(s, True), (st, False)]

    def conststr(self, st, v):
        _, _, x = models.target(self.eng, st, v)
        if x is None and v is not None and v[0] == 'str':
            x = v
        return x[1] if x is not None and x[0] == 'str' else None

    def model(self, eng, st, c):
        p, m, A, tr = c.path, c.method, c.args, c.trait or ""
        if p.startswith("clap::ArgMatches::"):
            return self.clap(eng, st, c, m)
        if p.startswith(("env_logger::", "<env_logger::", "clap::", "<clap::")) or p in ("std::io::_eprint", "std::io::_print"):
            if eng.prog.tystr(c.destty) == "()":
                return [(st, models.UNITV)]
            return [(st, eng.unk2(('ext', c.path, c.node), c.destty, ()))] if c.target is not None else []
        if p in ("std::process::exit",):
            self.exits(st, c.node, A[0])
            return []
        if p == "std::process::abort":
            return []
        # strings and paths
        if p == "std::string::String::new":
            return None
        t = self.tag(st, A[0]) if A else None
        if t is not None:
            if m in SAME and len(A) == 1:
                return [(st, A[0])]
            if m in COPY and len(A) == 1:
                _, _, x = models.target(eng, st, A[0])
                if m in ("to_str",):
                    return [(st, models.some(A[0]))]
                return [(st, x)]
            if m in TRIM and t[0] == 'line':
                _, _, x = models.target(eng, st, A[0])
                if eng.prog.ty(c.destty).get("k") == "ref":
                    return [(st, A[0])]
                return [(st, x)]
            if m in ("eq_ignore_ascii_case",) and len(A) == 2:
                k = self.conststr(st, A[1])
                if k is not None:
                    return [(s, ONE if b else ZERO) for s, b in self.seteq(st, t, k)]
        if m in ("eq", "ne") and len(A) == 2 and (tr == "std::cmp::PartialEq" or "PartialEq" in p):
            for a, b in ((A[0], A[1]), (A[1], A[0])):
                t, k = self.tag(st, a), self.conststr(st, b)
                if t is not None and k is not None:
                    return [(s, ONE if x == (m == "eq") else ZERO) for s, x in self.seteq(st, t, k)]
        if m == "contains" and len(A) == 2 and "slice" in p:
            t = self.tag(st, A[1])
            sl = models.as_slice(eng, st, A[0])
            es = models.elems(eng, st, sl) if sl is not None else None
            ks = [self.conststr(st, x) for x in es] if es is not None else [None]
            if t is not None and all(k is not None for k in ks):
                outs = []
                cur = [st]
                for k in ks:
                    nxt = []
                    for s in cur:
                        for s2, b in self.seteq(s, t, k):
                            if b:
                                outs.append((s2, ONE))
                            else:
                                nxt.append(s2)
                    cur = nxt
                return outs + [(s, ZERO) for s in cur]
        # standard input
        if m == "read_line" and len(A) == 2 and ("Stdin" in p or "BufRead" in (tr + p)):
            def okf(s):
                b, path, _ = models.target(eng, s, A[1])
                if b is not None:
                    eng.store(s, c.node, b, path, ('u', sym(('line', 0), None), -1), 'line')
                s.gh['asked'] = True
            return self.io(eng, st, c, eng.unk2(('nread', c.node), -1, ()), okf)
        if p == "std::io::read_to_string" or m == "next" and "std::io::Lines" in c.full:
            st.gh['asked'] = True
            line = ('u', sym(('line', 0), None), -1)
            if m == "next":
                return [(s, models.some(v)) for s, v in self.io(eng, st.copy(), c, line)] + [(st, models.NONE)]
            return self.io(eng, st, c, line)
        if p in ("std::io::stdin", "std::io::Stdin::lock", "std::io::Stdin::lines", "std::io::stdout", "std::io::stderr"):
            return [(st, eng.unk2(('stdio', p), c.destty, ()))]
        if m == "flush" and ("Stdout" in c.full or "Stderr" in c.full):
            return self.io(eng, st, c, models.UNITV)
        # files
        f = self.fileof(st, A[0]) if A and (m in SAME or m in COPY or m in ("as_slice", "to_vec", "index", "into_boxed_slice", "into_vec")) and "Cursor" not in p else None
        if f is not None and len(f) > 5 and (len(A) == 1 or "RangeFull" in c.full):
            return [(st, A[0] if eng.prog.ty(c.destty).get("k") == "ref" else self.inmem(f[1]))]
        if m == "read_to_end" and len(A) == 2:
            f = self.fileof(st, A[0])
            if f is not None and len(f) == 5:
                b, path, _ = models.target(eng, st, A[1])
                self.loaded(st, eng.srcspan(c.node), f[1])

                def full(s):
                    if b is not None:
                        eng.store(s, c.node, b, path, self.inmem(f[1]), 'contents')
                return self.io(eng, st, c, eng.unk2(('nread', c.node), -1, ()), full)
        if p in ("std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::try_exists", "std::fs::exists", "std::fs::metadata",
                 "std::path::Path::metadata", "std::fs::symlink_metadata", "std::path::Path::symlink_metadata"):
            return self.existence(eng, st, c, m)
        if p.startswith("std::fs::OpenOptions::") or p.startswith("<std::fs::OpenOptions") or p == "std::fs::File::options":
            return self.openopt(eng, st, c, m)
        if p.startswith("std::fs::"):
            return self.fs(eng, st, c, m)
        return super().model(eng, st, c)

    def clap(self, eng, st, c, m):
        A = c.args
        if m == "subcommand_matches":
            k = self.conststr(st, A[1])
            cur = st.gh.get('sub')
            if k is None:
                return None
            yes = lambda s: (s, models.some(('ref', ('d', sym(('clapsub', k), None)), ())))
            if cur is not None:
                return [yes(st)] if cur == k else [(st, models.NONE)]
            if k in st.gh.get('nots', ()):
                return [(st, models.NONE)]
            s = st.copy()
            s.gh['sub'] = k
            s.gh.pop('nots', None)
            st.gh['nots'] = tuple(sorted(st.gh.get('nots', ()) + (k,)))
            return [yes(s), (st, models.NONE)]
        if m in ("subcommand", "subcommand_name"):
            outs = []
            for k in ("compress", "expand"):
                s = st.copy()
                s.gh['sub'] = k
                kv = ('str', k)
                r = ('ref', ('d', sym(('clapsub', k), None)), ())
                outs.append((s, models.some(('agg', (kv, r)) if m == "subcommand" else kv)))
            return outs + [(st, models.NONE)]
        if m in ("get_one", "get_raw", "remove_one"):
            k = self.conststr(st, A[1])
            if k is None:
                return None
            r = self.clapv(st, k)
            s = st.copy()
            if m == "remove_one":
                r = st.mem[r[1]]
            return [(st, models.some(r)), (s, models.NONE)]
        return [(st, eng.unk2(('ext', c.path, c.node), c.destty, ()))]

    def existence(self, eng, st, c, m):
        name = self.pathname(st, c.args[0])
        if eng.reporting:
            self.exists.add(eng.srcspan(c.node))
        ex = st.gh.get(('ex', name))
        outs = []
        for b in (True, False):
            if ex is not None and ex != b or name is None and False:
                continue
            s = st.copy()
            if name is not None:
                s.gh[('ex', name)] = b
            if m in ("exists", "is_file") and not c.path.startswith("std::fs"):
                outs.append((s, ONE if b else ZERO))
            elif m in ("try_exists", "exists"):
                outs.append((s, models.ok(ONE if b else ZERO)))
            elif b:
                outs.append((s, models.ok(eng.unk2(('meta', c.node), -1, ()))))
            else:
                x = eng.freshsym(s, c.node, ('err', 'meta'))
                META[x] = {'ioerr': True, 'eof': False}
                outs.append((s, models.err(('u', x, models.errfield_ty(eng, c)))))
        if m in ("try_exists",):
            e = st.copy()
            x = eng.freshsym(e, c.node, ('err', 'tryexists'))
            META[x] = {'ioerr': True, 'eof': False}
            outs.append((e, models.err(('u', x, models.errfield_ty(eng, c)))))
        if m == "is_file":
            # false says little
            e = st.copy()
            outs.append((e, ZERO))
        return outs

    def openopt(self, eng, st, c, m):
        A = c.args
        if m in ("new", "options"):
            return [(st, ('agg', (ZERO,) * len(FLAGS)))]
        if m in FLAGS:
            b, path, x = models.target(eng, st, A[0])
            if x is None or x[0] != 'agg':
                return None
            fl = list(x[1])
            fl[FLAGS.index(m)] = A[1] if A[1] is not None and isconst(A[1]) else None
            eng.store(st, c.node, b, path, ('agg', tuple(fl)), 'oo')
            return [(st, A[0])]
        if m == "clone":
            _, _, x = models.target(eng, st, A[0])
            return [(st, x)]
        if m == "open":
            fl = self.flags(st, A[0])
            if fl is None:
                fl = (None,) * len(FLAGS)
            r, w, a, t, cr, cn = fl
            return self.open(eng, st, c, A[1], any(self.may(x) for x in (w, a, t, cr, cn)), self.may(t) and (True if self.must(t) else None),
                             self.must(cn), self.may(a))
        return None

    def open(self, eng, st, c, pathv, write, trunc, excl, app=False):
        name = self.pathname(st, pathv)
        at = eng.srcspan(c.node)
        if eng.reporting:
            self.opens.add(at)
        self.opened(st, c, name, write, trunc, excl)
        f = ('u', sym(('file', name, bool(write), trunc is True or excl, bool(app)), None), -1)

        def okf(s):
            if write and name is not None:
                s.gh[('open', name)] = True
            if trunc is not False and name is not None:
                s.gh[('emptied', name)] = True
        return self.io(eng, st, c, f, okf)

    def fs(self, eng, st, c, m):
        A = c.args
        p = c.path
        if p == "std::fs::File::open":
            return self.open(eng, st, c, A[0], False, False, False)
        if p == "std::fs::read":
            name = self.pathname(st, A[0])
            at = eng.srcspan(c.node)
            if eng.reporting:
                self.opens.add(at)
            self.loaded(st, at, name)
            return self.io(eng, st, c, self.inmem(name))
        if p == "std::fs::File::create":
            return self.open(eng, st, c, A[0], True, True, False)
        if p == "std::fs::File::create_new":
            return self.open(eng, st, c, A[0], True, False, True)
        if p == "std::fs::File::set_len":
            f = self.fileof(st, A[0])
            at = eng.srcspan(c.node)
            if eng.reporting:
                self.opens.add(at)
            return self.io(eng, st, c, models.UNITV, lambda s: self.setlen(s, c, f, A[1]))
        if p in ("std::fs::File::sync_all", "std::fs::File::sync_data"):
            return self.io(eng, st, c, models.UNITV)
        if p in ("std::fs::write", "std::fs::remove_file", "std::fs::remove_dir", "std::fs::remove_dir_all", "std::fs::set_permissions", "std::fs::create_dir",
                 "std::fs::create_dir_all"):
            self.destroys(st, c, m, self.pathname(st, A[0]))
            return self.io(eng, st, c, models.UNITV)
        if p in ("std::fs::rename", "std::fs::copy", "std::fs::hard_link"):
            if m == "rename":
                self.destroys(st, c, m, self.pathname(st, A[0]))
            self.destroys(st, c, m, self.pathname(st, A[1]))
            return self.io(eng, st, c, eng.unk2(('fscopy', c.node), -1, ()))
        return None

    def inmem(self, name):
        """the contents of a file"""
        return ('u', sym(('file', name, False, False, False, 'contents'), None), -1)

    def loaded(self, st, at, name):
        pass

    def consent(self, st, name):
        return st.gh.get(('ex', name)) is False or st.gh.get('yes') is True


class Overwrite(Cli):
    """C13: nothing but the output path is written, and an existing one only with consent"""

    def opened(self, st, c, name, write, trunc, excl):
        if not write or excl:
            return
        self.touched(st, c, "opened for writing", name)

    def destroys(self, st, c, what, name):
        self.touched(st, c, "changed (%s)" % what, name)

    def touched(self, st, c, how, name):
        at = self.eng.srcspan(c.node)
        if name != 'output':
            self.report(('path', at), "a file that is not the output path (%s) is %s at %s" % (name or "of unknown name", how, at))
        elif not self.consent(st, name):
            why = "without its existence having been tested" if ('ex', name) not in st.gh else "although it exists and the answer was not y"
            self.report(('consent', at), "the output file is %s at %s %s" % (how, at, why))

    def on_return(self, st, node, fn, v, top):
        if top:
            if tagof(v, 1):
                self.errs += 1
            else:
                self.oks += 1


class Status(Cli):
    """C14: exit status and the right conversion"""

    def on_event(self, st, node, kind, info):
        e = self.eng
        if kind == 'codec':
            at = e.srcspan(node)
            name = info['name']
            if e.reporting:
                self.codecs.add(at)
            st.gh['n'] = min(2, st.gh['n'] + 1)
            want = METHODS.get((st.gh.get('sub'), st.gh.get('method')))
            if want is None:
                self.report(('undecided', at), "%s is called at %s without the subcommand and method having been settled (%s, %s)"
                            % (name, at, st.gh.get('sub'), st.gh.get('method')))
                return
            if want[0] != name:
                self.report(('codec', at), "%s is called at %s for '%s -m %s'" % (name, at, st.gh['sub'], st.gh['method']))
                return
            fi, fo = self.fileof(st, info['call'].args[0]), self.fileof(st, info['call'].args[1])
            if fi is None or fi[1] != 'input':
                self.report(('infile', at), "%s at %s does not read the file named by the input argument" % (name, at))
            elif len(fi) == 5 and st.gh.get(('ex', 'output')) is not False:
                self.report(('same', at), "%s at %s reads the input while it writes the output, which may be the same file" % (name, at))
            if fo is None or fo[1] != 'output' or not fo[2] or fo[4]:
                self.report(('outfile', at), "%s at %s does not write the file named by the output argument" % (name, at))
            else:
                st.gh['fresh'] = bool(fo[3]) or st.gh.get('fresh', False)
            if want[1] is not None:
                for f, w in lints.FORMATS[want[1]].items():
                    self.option(st, info, name, f, w, at)
        elif kind == 'codec_done':
            if info['err'] is not None:
                st.gh['failed'] = True
            else:
                st.mem[self.OUTSIZE] = info['ok'][1]
                st.gh['done'] = True

    def loaded(self, st, at, name):
        if name == 'input' and st.gh.get(('emptied', 'output')) and st.gh.get(('ex', 'output')) is not False:
            self.report(('emptied', at), "the input is read at %s after the output, which may be the same file, has been emptied" % at)

    def setlen(self, st, c, f, n):
        e = self.eng
        at = e.srcspan(c.node)
        if f is None or f[1] != 'output':
            self.report(('setlen-file', at), "set_len at %s is not on the output file" % at)
            return
        if n == ZERO and st.gh['n'] == 0:
            st.gh['fresh'] = True
            return
        w = st.mem.get(self.OUTSIZE)
        if w is None or n is None or n[0] != 'L' or not e.entails(st, C('eq', sub(n, w))):
            st.gh['sized'] = False
            self.report(('setlen', at), "the output file is given a length at %s that is not the output size the codec returned" % at)
            return
        st.gh['sized'] = True

    def exits(self, st, node, code):
        if code is not None and isconst(code) and code != ZERO:
            self.errs += 1
            return
        self.success(st, node, "exit with status 0")

    def on_return(self, st, node, fn, v, top):
        if not top:
            return
        if tagof(v, 1):
            self.errs += 1
            return
        self.success(st, node, "a successful return")

    def success(self, st, node, what):
        self.oks += 1
        g = st.gh
        if g.get('failed'):
            self.report(('failed',), "main: %s although an operation failed" % what)
            return
        if g.get('sub') is None:
            if g['n']:
                self.report(('nosub',), "main: a conversion without a subcommand")
            return
        if g['n'] == 0:
            if g.get('asked') and g.get('yes') is not True and not g.get(('open', 'output')):
                return
            self.report(('nothing',), "main: %s for '%s -m %s' although nothing was converted and the user did not decline" % (what, g['sub'], g.get('method')))
            return
        if g['n'] != 1 or not g.get('done'):
            self.report(('calls',), "main: %s without exactly one conversion" % what)
        elif not g.get('fresh') and not g.get('sized'):
            self.report(('length',), "main: %s although the output file may keep bytes beyond the converted data" % what)
