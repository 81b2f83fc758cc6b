"""Models of the standard library, bit_vec and logging calls the crate makes."""
from values import *

STREAM_TRAITS = ("std::io::Read", "std::io::Write", "std::io::Seek", "std::io::BufRead")
STREAM_METHODS = {
    "read", "read_exact", "read_to_end", "read_to_string", "read_vectored", "read_buf", "read_buf_exact", "bytes",
    "write", "write_all", "write_vectored", "write_fmt", "flush", "seek", "rewind", "stream_position", "stream_len",
    "seek_relative", "fill_buf", "consume", "read_until", "read_line", "skip_until",
}


def last(path):
    return path.split("::")[-1]


def is_effect(cl):
    """stream, file-system or process effect"""
    tr = cl.get("trait") or cl.get("itrait")
    p = cl.get("path") or cl.get("decl") or ""
    if tr in STREAM_TRAITS:
        return True
    if p.startswith("std::io::copy") or p.startswith("std::fs::") or p.startswith("std::process::") or p.startswith("std::env::") \
            or p.startswith("std::net::") or p.startswith("std::thread::"):
        return True
    if tr == "std::iter::Iterator" and "std::io::Bytes" in (cl.get("full") or ""):
        return True
    if "BufReader" in p or "BufWriter" in p or "LineWriter" in p:
        return True
    if p.startswith("std::io::Stdin") or p.startswith("std::io::stdin"):
        return True
    return False


PURE = ("str>::trim", "str>::len", "str>::as_bytes", "String::as_str", "std::path::Path::new", "str>::to_", "String as std::ops::Deref",
        "str>::is_empty", "std::string::String::len", "core::num::", "core::cmp", "std::cmp", "str>::eq_ignore_ascii_case",
        "str>::starts_with", "str>::ends_with", "core::char")


def is_pure(c):
    p = c.path
    return any(x in p for x in PURE)


def is_panic(c):
    p = c.path
    return c.destty is not None and (p.startswith("core::panicking") or p.startswith("std::rt::panic") or "unwrap_failed" in p
                                     or "expect_failed" in p or p.startswith("std::rt::begin_panic")
                                     or p.startswith("core::slice::index::slice_") or p.startswith("std::process::exit")
                                     or p.startswith("std::process::abort"))


UNITV = ('agg', ())


def some(v):
    return ('en', 1, (v,))


NONE = ('en', 0, ())


def ok(v):
    return ('en', 0, (v,))


def err(v):
    return ('en', 1, (v,))


def target(eng, st, v):
    """follow references to the innermost place holding a non-reference; -> (base, path, value)"""
    base = path = None
    for _ in range(12):
        if v is None:
            return base, path, None
        if v[0] == 'ref':
            base, path = v[1], v[2]
            v = eng.load(st, base, path)
        elif v[0] == 'u' and eng.prog.ty(v[2]).get('k') in ('ref', 'ptr'):
            from engine import META
            META.setdefault(v[1], {'pt': eng.prog.ty(v[2]).get('e', -1)})
            base, path = ('d', v[1]), ()
            v = eng.load(st, base, path)
        else:
            break
    return base, path, v


def stream(eng, st, v):
    """-> (wrappers outermost first, stream id) for a stream value or reference to one"""
    wr = []
    base = path = None
    for _ in range(16):
        if v is None:
            break
        if v[0] == 'ref':
            base, path = v[1], v[2]
            n = eng.load(st, base, path)
            if n is not None and n[0] in ('ref', 'w', 'box'):
                v = n
                continue
            if n is not None and n[0] == 'u' and eng.prog.ty(n[2]).get('k') in ('ref', 'ptr'):
                v = n
                continue
            break
        if v[0] == 'w' and v[1] in ('BufReader', 'BufWriter', 'Bytes', 'Take', 'LineWriter'):
            wr.append(v[1])
            v = v[2]
            continue
        if v[0] == 'box':
            v = v[1]
            continue
        if v[0] == 'u':
            from engine import META
            if eng.prog.ty(v[2]).get('k') in ('ref', 'ptr'):
                META.setdefault(v[1], {'pt': eng.prog.ty(v[2]).get('e', -1)})
                base, path = ('d', v[1]), ()
            else:
                base, path = ('v', v[1]), ()
            break
        if v[0] == 'w':
            base, path = ('w', v[1]), ()
            break
        break
    if base is None:
        return wr, None
    if base[0] == 'd':
        k = KEY[base[1]]
        if k[0] == 'arg':
            return wr, ('arg', k[1])
    return wr, (base, path)


def veq(eng, st, a, b, d=0):
    """equality of two values as a boolean expression, or None"""
    if a is None or b is None or d > 8:
        return None
    if a[0] in ('ref',):
        a = target(eng, st, a)[2]
    if b[0] in ('ref',):
        b = target(eng, st, b)[2]
    if a is None or b is None:
        return None
    a, b = eng.norm(st, a), eng.norm(st, b)
    if a == b and a[0] in ('L', 'u', 'str', 'en', 'agg', 'arr'):
        return ONE
    if a[0] == 'L' and b[0] == 'L':
        return C('eq', sub(a, b))
    xa, xb = elems(eng, st, a), elems(eng, st, b)
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return ZERO
        r = [veq(eng, st, x, y, d + 1) for x, y in zip(xa, xb)]
        if any(x is None for x in r):
            return None
        return AND(r)
    if a[0] == 'en' and b[0] == 'en':
        if a[1] != b[1]:
            return ZERO
        r = [veq(eng, st, x, y, d + 1) for x, y in zip(a[2], b[2])]
        return None if any(x is None for x in r) else AND(r)
    if a[0] == 'en' and b[0] == 'u':
        a, b = b, a
    if a[0] == 'u' and b[0] == 'en':
        ty = eng.prog.ty(a[2])
        vs = ty.get("v")
        if vs and b[1] < len(vs):
            dv = eng.disc_of(st, a, a[2])
            r = [C('eq', sub(dv, L(vs[b[1]]["d"])))]
            x = eng.expand_variant(a, b[1])
            for p, q in zip(x[2], b[2]):
                e = veq(eng, st, p, q, d + 1)
                if e is None:
                    return None
                r.append(e)
            return AND(r)
    if a[0] == 'str' and b[0] == 'str':
        return ONE if a[1] == b[1] else ZERO
    x, y = sorted((eng.deep(st, a), eng.deep(st, b)), key=repr)
    return Ls(sym(('app', 'eq', (x, y)), (0, 1), tuple(vsyms(x) | vsyms(y))))


def elems(eng, st, v):
    if v[0] == 'arr':
        return list(v[1])
    if v[0] == 'vec' and v[2] is not None and v[2][0] == 'arr' and isconst(v[1]) and v[1][1] == len(v[2][1]):
        return list(v[2][1])
    if v[0] == 'sl' and isconst(v[3]) and isconst(v[4]) and v[4][1] <= 64:
        from_ = v[3][1]
        return [eng.load(st, v[1], v[2] + (('e', L(i)),)) for i in range(from_, from_ + v[4][1])]
    if v[0] == 'str':
        try:
            return [L(x) for x in v[1].encode()]
        except (AttributeError, UnicodeError):
            return None
    if v[0] == 'u':
        t = eng.prog.ty(v[2])
        if t.get("k") == "array" and t["n"] <= 64:
            return list(eng.expand(v)[1])
    return None


def as_slice(eng, st, v):
    """slice view of a reference to an array/vec/slice"""
    if v is None:
        return None
    if v[0] == 'sl' or v[0] == 'str':
        return v
    if v[0] == 'ref':
        base, path, x = target(eng, st, v)
        if x is None:
            return None
        if x[0] == 'sl' or x[0] == 'str':
            return x
        n = None
        if x[0] == 'arr':
            n = L(len(x[1]))
        elif x[0] == 'vec':
            n = x[1]
        elif x[0] == 'u':
            t = eng.prog.ty(x[2])
            if t.get("k") == "array":
                n = L(t["n"])
            elif t.get("path") in ("std::vec::Vec", "std::string::String"):
                n = eng.veclen(x)
        if n is None or base is None:
            return None
        return ('sl', base, path, ZERO, n)
    return None


def subslice(eng, st, c, v, ix, tyix):
    """v[ix] for a range value ix; -> slice or None"""
    p = eng.prog.ty(tyix).get("path", "")
    sl = as_slice(eng, st, v)
    if sl is None or sl[0] != 'sl':
        if sl is not None and sl[0] == 'str':
            return None
        return None
    n = sl[4]
    if p.endswith("::RangeFull"):
        return sl
    if ix is None or ix[0] == 'u':
        ix = eng.expand(ix) if ix is not None else None
    if ix is None or ix[0] != 'agg':
        return None
    f = ix[1]
    if p.endswith("::RangeInclusive"):
        lo, hi = f[0], add(f[1], ONE) if f[1] is not None and f[1][0] == 'L' else None
    elif p.endswith("::RangeToInclusive"):
        lo, hi = ZERO, add(f[0], ONE) if f[0] is not None and f[0][0] == 'L' else None
    elif p.endswith("::RangeTo"):
        lo, hi = ZERO, f[0]
    elif p.endswith("::RangeFrom"):
        lo, hi = f[0], n
    elif p.endswith("::Range"):
        lo, hi = f[0], f[1]
    else:
        return None
    if lo is None or hi is None or lo[0] != 'L' or hi[0] != 'L':
        return None
    g = AND([C('le', sub(lo, hi)), C('le', sub(hi, n))])
    if not eng.entails(st, g):
        eng.panic(st, c.node, "slice-range")
    if not eng.assume(st, g):
        return 'dead'
    return ('sl', sl[1], sl[2], add(sl[3], lo), sub(hi, lo))


def _range_next(eng, st, c, back=False):
    base, path, v = target(eng, st, c.args[0])
    if v is not None and v[0] == 'u':
        v = eng.expand(v)
    if v is None or v[0] != 'agg' or len(v[1]) < 2 or v[1][0] is None or v[1][1] is None or v[1][0][0] != 'L' or v[1][1][0] != 'L':
        return None
    a, b = v[1][0], v[1][1]
    outs = []
    s1 = st.copy()
    if eng.assume(s1, C('le', add(sub(a, b), ONE))):
        if back:
            nb = sub(b, ONE)
            eng.store(s1, c.node, base, path, ('agg', (a, nb) + v[1][2:]), 'rng')
            outs.append((s1, some(nb)))
        else:
            eng.store(s1, c.node, base, path, ('agg', (add(a, ONE), b) + v[1][2:]), 'rng')
            outs.append((s1, some(a)))
    s2 = st
    if eng.assume(s2, C('le', sub(b, a))):
        outs.append((s2, NONE))
    return outs


def _rangeincl_next(eng, st, c):
    base, path, v = target(eng, st, c.args[0])
    if v is None or v[0] != 'agg' or len(v[1]) != 3 or v[1][0] is None or v[1][1] is None or v[1][0][0] != 'L' or v[1][1][0] != 'L':
        return None
    a, b, x = v[1]
    if x is None:
        return None
    outs = []
    if x != ZERO:
        s0 = st.copy()
        if eng.assume(s0, x):
            outs.append((s0, NONE))
    if eng.assume(st, neg(x)):
        s1 = st.copy()
        if eng.assume(s1, C('le', add(sub(a, b), ONE))):
            eng.store(s1, c.node, base, path, ('agg', (add(a, ONE), b, ZERO)), 'rng')
            outs.append((s1, some(a)))
        s2 = st.copy()
        if eng.assume(s2, C('eq', sub(a, b))):
            eng.store(s2, c.node, base, path, ('agg', (a, b, ONE)), 'rng')
            outs.append((s2, some(a)))
        if eng.assume(st, C('le', add(sub(b, a), ONE))):
            outs.append((st, NONE))
    return outs


def _default(eng, c, fieldpath):
    return None


def bytesof(eng, st, x, n, le=True):
    """little-endian bytes of a non-negative scalar"""
    if isconst(x):
        w = x[1] & ((1 << (8 * n)) - 1)
        bs = [L((w >> (8 * i)) & 255) for i in range(n)]
    elif x[0] == 'L' and eng.quick(st, x)[0] >= 0:
        bs = [eng.mod(st, eng.div(st, x, 1 << (8 * i)), 256) for i in range(n)]
    else:
        bs = [Ls(sym(('op', 'byte', x, i, n), (0, 255), tuple(vsyms(x)))) for i in range(n)]
    return bs if le else bs[::-1]


def frombytes(eng, st, es, n, rng, le=True):
    es = list(es) if le else list(es)[::-1]
    if rng[0] == 0 and all(e is not None and e[0] == 'L' for e in es):
        r = ZERO
        for i, e in enumerate(es):
            r = add(r, e, 1 << (8 * i))
        return r
    es = tuple(e if e is not None else ('str', '?') for e in es)
    deps = EMPTY
    for e in es:
        deps = deps | vsyms(e)
    return Ls(sym(('op', 'fromle') + es, rng, tuple(deps)))


class IoGhost:
    pass


def io_error(eng, st, node, tag, eof):
    """a fresh io::Error value"""
    s = eng.freshsym(st, node, ('ioerr', tag))
    from engine import META
    META[s] = {'ioerr': True, 'eof': eof, 'where': eng.srcspan(node), 'pt': -1}
    return ('u', s, eng.io_err_ty if hasattr(eng, 'io_err_ty') else -1)


def errfield_ty(eng, c):
    t = eng.prog.ty(c.destty)
    try:
        return t["v"][1]["f"][0]["t"]
    except (KeyError, IndexError):
        return -1


def outcomes(eng, st, c, oks, eof=False, tag='io', op=None, sid=None, wr=()):
    """split a fallible stream operation: success outcomes, end of file, other failure.
    oks: function(state) -> list of (state, value-of-Ok)"""
    res = []
    e1 = st.copy()
    e2 = st.copy() if eof else None
    for s, v in oks(st):
        res.append((s, ok(v)))
    if eof:
        s = eng.freshsym(e2, c.node, ('eof', tag))
        from engine import META
        META[s] = {'ioerr': True, 'eof': True}
        x = ('u', s, errfield_ty(eng, c))
        eng.event(e2, c.node, 'io_eof', op=op, stream=sid, wr=wr, call=c, err=s)
        res.append((e2, err(x)))
    s = eng.freshsym(e1, c.node, ('err', tag))
    from engine import META
    META[s] = {'ioerr': True, 'eof': False}
    x = ('u', s, errfield_ty(eng, c))
    eng.event(e1, c.node, 'io_err', op=op, stream=sid, wr=wr, call=c, err=s)
    res.append((e1, err(x)))
    return res


def gpos(sid):
    return ('g', 'pos', sid)


def glen(sid):
    return ('g', 'len', sid)


def getpos(eng, st, sid):
    b = gpos(sid)
    v = st.mem.get(b)
    if v is None:
        v = Ls(sym(('pos0', sid), (0, (1 << 64) - 1)))
        st.mem[b] = v
    return v


def setpos(eng, st, sid, v):
    st.mem[gpos(sid)] = v


def streamlen(sid):
    return Ls(sym(('slen', sid), (0, (1 << 64) - 1)))


def seek_to(eng, st, c, sid, wr, how, x):
    """-> list of (state, new position)"""
    if how == 'start':
        n = x
    elif how == 'end':
        n = add(streamlen(sid), x) if not eng.opts.get('dynlen') else None
    else:
        n = add(getpos(eng, st, sid), x)
    if n is None:
        n = Ls(eng.freshsym(st, c.node, 'seekpos', (0, (1 << 64) - 1)))
    eng.event(st, c.node, 'seek', stream=sid, wr=wr, how=how, arg=x, new=n, call=c)
    setpos(eng, st, sid, n)
    return [(st, n)]


def io_model(eng, st, c):
    m = c.method
    tr = c.trait
    p = c.path
    full = c.full
    # wrappers
    if p.startswith("std::io::BufReader") and m in ("new", "with_capacity"):
        return [(st, ('w', 'BufReader', c.args[-1], ()))]
    if p.startswith("std::io::BufWriter") and m in ("new", "with_capacity"):
        return [(st, ('w', 'BufWriter', c.args[-1], ()))]
    if tr == "std::io::Read" or p.startswith("std::io::Read::"):
        if m == "bytes":
            return [(st, ('w', 'Bytes', c.args[0], ()))]
        if m == "by_ref":
            return [(st, c.args[0])]
        if m == "take":
            return [(st, ('w', 'Take', c.args[0], ()))]
    if tr == "std::io::Write" and m == "by_ref":
        return [(st, c.args[0])]
    if m in ("get_ref", "get_mut") and ("BufReader" in p or "BufWriter" in p):
        b, pa, v = target(eng, st, c.args[0])
        if v is not None and v[0] == 'w':
            i = v[2]
            if i is not None and i[0] == 'ref':
                return [(st, i)]
        return None
    if m == "into_inner" and "BufReader" in p:
        v = c.args[0]
        if v is not None and v[0] == 'w':
            return [(st, v[2])]
        return None
    if m == "into_inner" and "BufWriter" in p:
        v = c.args[0]
        if v is None or v[0] != 'w':
            return None
        wr, sid = stream(eng, st, v)

        def oks(s):
            eng.event(s, c.node, 'flush', stream=sid, wr=wr, call=c, inner=False)
            return [(s, v[2])]
        return outcomes(eng, st, c, oks, op='flush', sid=sid, wr=wr)
    if tr == "std::iter::Iterator" and m == "next" and "std::io::Bytes" in full:
        wr, sid = stream(eng, st, c.args[0])
        t = eng.prog.ty(c.destty)
        rt = t["v"][1]["f"][0]["t"]
        et = eng.prog.ty(rt)["v"][1]["f"][0]["t"]
        e1, e2 = st.copy(), st.copy()
        x = eng.fresh(st, c.node, 'byte', eng.prog.ty(rt)["v"][0]["f"][0]["t"])
        pos = getpos(eng, st, sid)
        eng.event(st, c.node, 'read', stream=sid, wr=wr, n=ONE, pos=pos, call=c, data=('arr', (x,)))
        setpos(eng, st, sid, add(pos, ONE))
        res = [(st, some(ok(x)))]
        eng.event(e2, c.node, 'io_eof', op='next', stream=sid, wr=wr, call=c, err=None)
        res.append((e2, NONE))
        s = eng.freshsym(e1, c.node, ('err', 'io'))
        from engine import META
        META[s] = {'ioerr': True, 'eof': False}
        eng.event(e1, c.node, 'io_err', op='next', stream=sid, wr=wr, call=c, err=s)
        res.append((e1, some(err(('u', s, et)))))
        return res
    if m == "seek_relative" and (p.startswith("std::io::BufReader") or tr == "std::io::Seek" or p.startswith("std::io::Seek::")):
        wr, sid = stream(eng, st, c.args[0])
        x = c.args[1]
        if x is None or x[0] != 'L':
            return None
        return outcomes(eng, st, c, lambda s: [(a, UNITV) for a, _ in seek_to(eng, s, c, sid, wr, 'cur', x)], op='seek', sid=sid, wr=wr)
    if tr not in STREAM_TRAITS and not any(p.startswith(x + "::") for x in STREAM_TRAITS):
        if p.startswith("std::io::Error") and m == "kind":
            b, pa, v = target(eng, st, c.args[0])
            return kind_of(eng, st, c, v)
        return None
    if m not in STREAM_METHODS:
        return None
    # reads from in-memory slices (&[u8] as Read) are still streams
    wr, sid = stream(eng, st, c.args[0])
    if m == "seek":
        x = c.args[1]
        if x is not None and x[0] == 'u':
            x = eng.norm(st, x)
        how = arg = None
        if x is not None and x[0] == 'en' and len(x[2]) == 1 and x[2][0] is not None and x[2][0][0] in BOOLS:
            how = ('start', 'end', 'cur')[x[1]]
            arg = x[2][0]
            if arg[0] != 'L':
                # boolean as integer: split
                outs = []
                for val in (0, 1):
                    s = st.copy()
                    if eng.assume(s, arg if val else neg(arg)):
                        outs += outcomes(eng, s, c, lambda q, val=val: seek_to(eng, q, c, sid, wr, how, L(val)), op='seek', sid=sid, wr=wr)
                return outs
        if how is None:
            how, arg = 'start', Ls(eng.freshsym(st, c.node, 'seekarg', (0, (1 << 64) - 1)))
        return outcomes(eng, st, c, lambda s: seek_to(eng, s, c, sid, wr, how, arg), op='seek', sid=sid, wr=wr)
    if m == "rewind":
        return outcomes(eng, st, c, lambda s: [(a, UNITV) for a, _ in seek_to(eng, s, c, sid, wr, 'start', ZERO)], op='seek', sid=sid, wr=wr)
    if m == "stream_position":
        def oks(s):
            v = getpos(eng, s, sid)
            eng.event(s, c.node, 'tell', stream=sid, wr=wr, pos=v, call=c)
            return [(s, v)]
        return outcomes(eng, st, c, oks, op='tell', sid=sid, wr=wr)
    if m == "stream_len":
        return outcomes(eng, st, c, lambda s: [(s, streamlen(sid))], op='tell', sid=sid, wr=wr)
    if m == "flush":
        def oks(s):
            eng.event(s, c.node, 'flush', stream=sid, wr=wr, call=c, inner=True)
            return [(s, UNITV)]
        return outcomes(eng, st, c, oks, op='flush', sid=sid, wr=wr)
    if m in ("write_all", "write_fmt"):
        sl = as_slice(eng, st, c.args[1]) if m == "write_all" else None
        n = None
        if sl is not None:
            n = sl[4] if sl[0] == 'sl' else L(len(sl[1].encode()))
        if n is None:
            n = Ls(eng.freshsym(st, c.node, 'wlen', (0, (1 << 63) - 1)))

        def oks(s):
            pos = getpos(eng, s, sid)
            eng.event(s, c.node, 'write', stream=sid, wr=wr, n=n, pos=pos, data=sl, call=c)
            setpos(eng, s, sid, add(pos, n))
            return [(s, UNITV)]
        return outcomes(eng, st, c, oks, op='write', sid=sid, wr=wr)
    if m in ("write", "write_vectored"):
        sl = as_slice(eng, st, c.args[1])
        n = sl[4] if sl is not None and sl[0] == 'sl' else None

        def oks(s):
            k = Ls(eng.freshsym(s, c.node, 'wn', (0, (1 << 63) - 1)))
            if n is not None:
                eng.assume(s, C('le', sub(k, n)), False)
            pos = getpos(eng, s, sid)
            eng.event(s, c.node, 'shortwrite', stream=sid, wr=wr, n=k, pos=pos, data=sl, want=n, call=c)
            setpos(eng, s, sid, add(pos, k))
            return [(s, k)]
        return outcomes(eng, st, c, oks, op='write', sid=sid, wr=wr)
    if m in ("read_exact",):
        sl = as_slice(eng, st, c.args[1])
        n = sl[4] if sl is not None and sl[0] == 'sl' else None
        if n is None:
            n = Ls(eng.freshsym(st, c.node, 'rlen', (0, (1 << 63) - 1)))
        # buffer contents are unspecified after a failure and fresh after success
        eng.havoc_ref(st, c.node, sl if sl is not None else c.args[1], 'rd', c.argtys[1])

        def oks(s):
            pos = getpos(eng, s, sid)
            eng.event(s, c.node, 'read', stream=sid, wr=wr, n=n, pos=pos, call=c, data=sl)
            setpos(eng, s, sid, add(pos, n))
            return [(s, UNITV)]
        return outcomes(eng, st, c, oks, eof=True, op='read', sid=sid, wr=wr)
    if m in ("read", "read_to_end", "read_to_string", "read_line", "read_until", "read_vectored"):
        for i, v in enumerate(c.args[1:], 1):
            if c.argtys and eng.mutref(c.argtys[i]):
                eng.havoc_ref(st, c.node, v, ('rd', i), c.argtys[i])

        sl = as_slice(eng, st, c.args[1]) if m == "read" and len(c.args) > 1 else None
        want = sl[4] if sl is not None and sl[0] == 'sl' else None
        some_ = m in ("read", "read_vectored")      # may return less than there is

        def oks(s):
            k = Ls(eng.freshsym(s, c.node, 'rn', (0, (1 << 63) - 1)))
            if want is not None:
                eng.assume(s, C('le', sub(k, want)), False)
            pos = getpos(eng, s, sid)
            eng.event(s, c.node, 'read', stream=sid, wr=wr, n=k, pos=pos, call=c, data=None, part=some_, want=want, buf=sl)
            setpos(eng, s, sid, add(pos, k))
            return [(s, k)]
        return outcomes(eng, st, c, oks, op='read', sid=sid, wr=wr)
    return None


def kind_of(eng, st, c, v):
    """io::Error::kind"""
    from engine import META
    ty = eng.prog.ty(c.destty)
    vs = ty.get("v") or []
    eofi = next((i for i, x in enumerate(vs) if x["n"] == "UnexpectedEof"), None)
    if v is not None and v[0] == 'u' and (META.get(v[1]) or {}).get('ioerr') and eofi is not None:
        if META[v[1]]['eof']:
            return [(st, ('en', eofi, ()))]
        s = sym(('kind', v[1]), None, (v[1],))
        u = ('u', s, c.destty)
        d = eng.disc_of(st, u, c.destty)
        st.facts[C('ne', sub(d, L(vs[eofi]["d"])))] = None
        return [(st, u)]
    return None


def apply(eng, st, c):
    r = io_model(eng, st, c)
    if r is not None:
        return r
    p, m, tr, full = c.path, c.method, c.trait, c.full
    A = c.args
    if p.startswith("log::max_level"):
        return [(st, eng.unk(('maxlevel',), c.destty))]
    if p.startswith("log::__private_api"):
        return [(st, UNITV if m == "log" else eng.unk(('logloc',), c.destty))]
    if p.startswith("std::fmt::Arguments") or p.startswith("core::fmt::rt::") :
        return [(st, eng.unk(('fmt', c.destty), c.destty))]
    if p.startswith("std::intrinsics::cold_path") or p.startswith("std::hint::") and "unreachable" not in p and "black_box" not in p:
        return [(st, UNITV)]
    if "precondition_check" in p:
        return [(st, UNITV)]
    if p.startswith("std::intrinsics::unreachable") or p.startswith("std::hint::unreachable_unchecked"):
        return [] if not p.endswith("precondition_check") else [(st, UNITV)]
    # --- boxes, conversions
    if p == "std::boxed::Box::<T>::new":
        return [(st, ('box', A[0]))]
    if "std::convert::From<E> for std::boxed::Box<(dyn std::error::Error" in p:
        return [(st, ('box', A[0]))]
    if tr in ("std::convert::From", "std::convert::Into") and m in ("from", "into") and c.argtys and c.argtys[0] == c.destty:
        return [(st, A[0])]
    if tr == "std::convert::Into" and m == "into" and "dyn std::error::Error" in eng.prog.tystr(c.destty):
        return [(st, ('box', A[0]))]
    if m in ("as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "as_slice", "as_mut_slice", "as_bytes", "as_str") \
            and A and ("Vec" in p or "Vec" in full or "slice" in p or "array" in p or "impl str" in p):
        if tr in (None, "std::ops::Deref", "std::ops::DerefMut", "std::convert::AsRef", "std::convert::AsMut", "std::borrow::Borrow"):
            sl = as_slice(eng, st, A[0])
            if sl is not None:
                if sl[0] == 'str' and m == 'as_bytes':
                    bs = tuple(L(x) for x in sl[1].encode())
                    v = ('arr', bs)
                    eng.consts[v] = v
                    return [(st, ('sl', ('k', v), (), ZERO, L(len(bs))))]
                return [(st, sl)]
    # --- scalars <-> bytes
    if p.startswith("core::num::") and m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes") and A[0] is not None and A[0][0] == 'L':
        n = eng.prog.ty(c.destty)["n"]
        return [(st, ('arr', tuple(bytesof(eng, st, A[0], n, m != "to_be_bytes"))))]
    if p.startswith("core::num::") and m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        es = elems(eng, st, A[0]) if A[0] is not None else None
        if es is not None:
            return [(st, frombytes(eng, st, es, len(es), eng.intrange(c.destty), m != "from_be_bytes"))]
    if p.startswith("core::num::") and m in ("wrapping_add", "wrapping_sub", "saturating_sub", "saturating_add", "checked_sub", "checked_add",
                                             "min", "max") and len(A) == 2 and all(a is not None and a[0] == 'L' for a in A):
        return arith(eng, st, c, m)
    if tr == "std::cmp::Ord" and m in ("min", "max") and all(a is not None and a[0] == 'L' for a in A):
        return arith(eng, st, c, m)
    if p in ("std::cmp::min", "std::cmp::max") and all(a is not None and a[0] == 'L' for a in A):
        return arith(eng, st, c, m)
    # --- equality
    if m in ("eq", "ne") and (tr == "std::cmp::PartialEq" or "PartialEq" in p) and len(A) == 2:
        e = veq(eng, st, A[0], A[1])
        if e is not None:
            return [(st, e if m == "eq" else neg(e))]
        return None
    # --- clone of plain data
    if tr == "std::clone::Clone" and m == "clone" and A:
        base, path, v = target(eng, st, A[0])
        if v is not None and v[0] in ('L', 'agg', 'en', 'vec', 'u', 'arr', 'str', 'C', 'AND', 'OR') and not holdsref(v):
            return [(st, v)]
        return None
    # --- mem
    if p.startswith("std::mem::") and m in ("replace", "take", "swap"):
        if m == "replace" and A[0] is not None and A[0][0] == 'ref':
            old = eng.load(st, A[0][1], A[0][2])
            eng.store(st, c.node, A[0][1], A[0][2], A[1], 'mem')
            return [(st, old)]
        if m == "swap" and A[0] is not None and A[1] is not None and A[0][0] == 'ref' and A[1][0] == 'ref':
            x, y = eng.load(st, A[0][1], A[0][2]), eng.load(st, A[1][1], A[1][2])
            eng.store(st, c.node, A[0][1], A[0][2], y, 'mem')
            eng.store(st, c.node, A[1][1], A[1][2], x, 'mem2')
            return [(st, UNITV)]
        if m == "take" and A[0] is not None and A[0][0] == 'ref':
            tp = eng.prog.ty(c.destty).get("path", "")
            old = eng.load(st, A[0][1], A[0][2])
            dv = None
            if tp in ("std::vec::Vec", "bit_vec::BitVec"):
                dv = ('vec', ZERO, None)
            elif tp == "std::option::Option":
                dv = NONE
            elif eng.intrange(c.destty) is not None:
                dv = ZERO
            if dv is not None:
                eng.store(st, c.node, A[0][1], A[0][2], dv, 'mem')
                return [(st, old)]
        return None
    # --- ranges and iterators
    if tr == "std::iter::IntoIterator" and m == "into_iter":
        if c.argtys and c.argtys[0] == c.destty:
            return [(st, A[0])]
        if A[0] is not None and A[0][0] in ('ref', 'sl'):
            sl = as_slice(eng, st, A[0])
            if sl is not None and sl[0] == 'sl':
                return [(st, ('w', 'Iter', sl, (ZERO,)))]
        return None
    if m in ("iter", "iter_mut") and "core::slice" in p:
        sl = as_slice(eng, st, A[0])
        if sl is not None and sl[0] == 'sl':
            return [(st, ('w', 'Iter', sl, (ZERO,)))]
        return None
    if m == "contains" and p in ("std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::contains") and len(A) == 2:
        r, x = target(eng, st, A[0])[2], target(eng, st, A[1])[2]
        if r is not None and r[0] == 'u':
            r = eng.expand(r)
        if x is not None and x[0] == 'L' and r is not None and r[0] == 'agg' and all(b is not None and b[0] == 'L' for b in r[1][:2]):
            lo, hi = r[1][:2]
            below, above = st.copy(), st.copy()
            top = add(x, ZERO if "Inclusive" in p else ONE)
            return [(s, v) for s, f, v in ((st, (C('le', sub(lo, x)), C('le', sub(top, hi))), ONE), (below, (C('le', sub(add(x, ONE), lo)),), ZERO),
                                           (above, (C('le', sub(lo, x)), C('le', sub(add(hi, ONE), top))), ZERO)) if all(eng.assume(s, y) for y in f)]
    if m == "next" and tr == "std::iter::Iterator" or "as std::iter::Iterator>::next" in full or \
            ("impl std::iter::Iterator for std::ops::Range" in full and m == "next"):
        if "std::iter::Rev<std::ops::Range<" in full:
            return _range_next(eng, st, c, True)
        if "std::ops::RangeInclusive" in full and "Rev<" not in full and "Map<" not in full:
            return _rangeincl_next(eng, st, c)
        if "std::ops::Range<" in full and "Rev<" not in full and "::Map<" not in full and "Skip" not in full and "Step" not in full and "Zip" not in full and "Chain" not in full and "Enumerate" not in full:
            return _range_next(eng, st, c)
        base, path, v = target(eng, st, A[0]) if A else (None, None, None)
        if v is not None and v[0] == 'w' and v[1] == 'Iter' and v[2] is not None and v[2][0] == 'sl' and v[3][0] is not None:
            sl, ix = v[2], v[3][0]
            outs = []
            s1 = st.copy()
            if eng.assume(s1, C('le', add(sub(ix, sl[4]), ONE))):
                eng.store(s1, c.node, base, path, ('w', 'Iter', sl, (add(ix, ONE),)), 'it')
                rt = eng.prog.ty(c.destty)
                et = -1
                try:
                    et = eng.prog.ty(rt["v"][1]["f"][0]["t"]).get("e", -1)
                except (KeyError, IndexError):
                    pass
                outs.append((s1, some(('ref', sl[1], sl[2] + (('e', add(sl[3], ix), et),)))))
            if eng.assume(st, C('le', sub(sl[4], ix))):
                outs.append((st, NONE))
            return outs
        return None
    if "impl std::iter::DoubleEndedIterator for std::ops::Range" in full and m == "next_back":
        return _range_next(eng, st, c, True)
    if m == "rev" and A and A[0] is not None and A[0][0] == 'agg' and "std::ops::Range<" in full:
        return [(st, A[0])]      # Rev<Range> is represented by the range
    if "std::iter::Rev<" in full and m == "into_iter" and A[0] is not None:
        return [(st, A[0])]
    # --- slices
    if p in ("core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::vec::Vec::<T, A>::len", "bit_vec::BitVec::<B>::len",
             "std::string::String::len"):
        n = lenof(eng, st, A[0])
        if n is not None:
            return [(st, n)]
        return None
    if m == "is_empty" and ("core::slice" in p or "Vec" in p or "core::str" in p):
        n = lenof(eng, st, A[0])
        if n is not None:
            return [(st, C('eq', n))]
        return None
    if m in ("index", "index_mut") and len(A) == 2:
        if A[1] is not None and A[1][0] == 'L':
            sl = as_slice(eng, st, A[0])
            if sl is not None and sl[0] == 'sl':
                g = AND([C('le', add(sub(A[1], sl[4]), ONE)), C('le', scale(A[1], -1))])
                if not eng.entails(st, g):
                    eng.panic(st, c.node, "index")
                if not eng.assume(st, g):
                    return []
                et = eng.prog.ty(c.destty).get("e", -1)
                return [(st, ('ref', sl[1], sl[2] + (('e', add(sl[3], A[1]), et),)))]
            return None
        r = subslice(eng, st, c, A[0], A[1], c.argtys[1])
        if r == 'dead':
            return []
        if r is not None:
            return [(st, r)]
        return None
    if m == "copy_from_slice" or m == "clone_from_slice":
        d, s_ = as_slice(eng, st, A[0]), as_slice(eng, st, A[1])
        if d is not None and d[0] == 'sl' and s_ is not None:
            es = elems(eng, st, s_)
            if es is not None and isconst(d[3]) and isconst(d[4]):
                if d[4][1] != len(es):
                    eng.panic(st, c.node, "copy_from_slice length")
                    return []
                for i, x in enumerate(es):
                    eng.store(st, c.node, d[1], d[2] + (('e', L(d[3][1] + i)),), x, ('cfs', i))
                return [(st, UNITV)]
        return None
    if m == "fill" and "core::slice" in p:
        return None
    # --- iterators of which only the number of items left is known
    r = seq_model(eng, st, c)
    if r is not None:
        return r
    # --- Vec / BitVec
    if p.startswith("std::vec::Vec") or p.startswith("bit_vec::BitVec"):
        r = vec_model(eng, st, c)
        if r is not None:
            return r
        return None
    if p in ("std::slice::from_ref", "core::slice::from_ref", "core::slice::raw::from_ref") and A[0] is not None and A[0][0] == 'ref':
        x = target(eng, st, A[0])[2]
        if x is not None:
            b = ('g', 'one', c.node)
            st.mem[b] = ('arr', (x,))
            return [(st, ('sl', b, (), ZERO, ONE))]
        return None
    if p == "std::vec::from_elem":
        if A[1] is not None and A[1][0] == 'L':
            cont = None
            if isconst(A[1]) and A[1][1] <= 64:
                cont = ('arr', (A[0],) * A[1][1])
            else:
                cont = eng.unk2(('op', 'rep', A[0], A[1]), -1, tuple(vsyms(A[0]) | vsyms(A[1])))
            return [(st, ('vec', A[1], cont))]
        return None
    if p.startswith("std::io::Cursor"):
        if m == "new":
            return [(st, ('w', 'Cursor', A[0], (ZERO,)))]
        if m == "into_inner" and A[0] is not None and A[0][0] == 'w' and A[0][1] == 'Cursor':
            return [(st, A[0][2])]
        return None
    return None


def holdsref(v):
    if v is None:
        return False
    k = v[0]
    if k in ('ref', 'sl', 'w'):
        return True
    if k in ('agg', 'arr'):
        return any(holdsref(x) for x in v[1])
    if k == 'en':
        return any(holdsref(x) for x in v[2])
    if k == 'vec':
        return holdsref(v[2])
    if k == 'box':
        return True
    return False


def lenof(eng, st, v):
    if v is None:
        return None
    if v[0] == 'sl':
        return v[4]
    if v[0] == 'str':
        return L(len(v[1].encode()))
    if v[0] == 'ref':
        base, path, x = target(eng, st, v)
        if x is None:
            return None
        if x[0] == 'sl':
            return x[4]
        return eng.veclen(x)
    if v[0] == 'u':
        return eng.veclen(v)
    return None


def arith(eng, st, c, m):
    a, b = c.args
    rng = eng.intrange(c.destty if m not in ("checked_sub", "checked_add") else c.argtys[0])
    if rng is None:
        return None
    if m in ("wrapping_add", "wrapping_sub"):
        r = add(a, b) if m == "wrapping_add" else sub(a, b)
        if eng.inrange(st, r, rng):
            return [(st, r)]
        return [(st, eng.opsym(m, a, b, rng=rng))]
    if m in ("min", "max"):
        outs = []
        s1 = st.copy()
        if eng.assume(s1, C('le', sub(a, b))):
            outs.append((s1, a if m == "min" else b))
        if eng.assume(st, C('le', add(sub(b, a), ONE))):
            outs.append((st, b if m == "min" else a))
        return outs
    r = add(a, b) if m.endswith("add") else sub(a, b)
    outs = []
    s1 = st.copy()
    inr = AND([C('le', sub(r, L(rng[1]))), C('le', sub(L(rng[0]), r))])
    if eng.assume(s1, inr):
        outs.append((s1, some(r) if m.startswith("checked") else r))
    if eng.assume(st, neg(inr)):
        if m.startswith("checked"):
            outs.append((st, NONE))
        else:
            outs.append((st, L(rng[1] if m.endswith("add") else rng[0])))
    return outs


def seq_model(eng, st, c):
    p, m, A = c.path, c.method, c.args
    if m in ("iter", "into_iter") and len(A) == 1 and A[0] is not None and \
            (p.startswith("bit_vec::") or "bit_vec::BitVec" in c.full.split(" as ")[0]):
        v = target(eng, st, A[0])[2] if A[0][0] == 'ref' else A[0]
        n = eng.veclen(v) if v is not None and v[0] in ('vec', 'u') else None
        return None if n is None else [(st, ('w', 'Some', None, (n,)))]
    if m == "extend" and len(A) == 2 and A[0] is not None and A[0][0] == 'ref' and A[1] is not None and A[1][0] == 'w' and A[1][1] == 'Some' and A[1][3][0] is not None:
        base, path, v = target(eng, st, A[0])
        n = eng.veclen(v) if v is not None else None
        if n is None or base is None:
            return None
        eng.store(st, c.node, base, path, ('vec', add(n, A[1][3][0]), ('u', eng.freshsym(st, c.node, 'vc'), -1)), 'vec')
        return [(st, UNITV)]
    it = A[0] if A else None
    if it is None or it[0] != 'w' or it[1] != 'Some' or it[3][0] is None:
        if m == "next" and it is not None and it[0] == 'ref':
            base, path, v = target(eng, st, it)
            if v is not None and v[0] == 'w' and v[1] == 'Some' and v[3][0] is not None and isinstance(c.destty, int):
                outs, n = [], v[3][0]
                s1 = st.copy()
                if eng.assume(s1, C('le', sub(ONE, n))):
                    eng.store(s1, c.node, base, path, ('w', 'Some', None, (sub(n, ONE),)), 'it')
                    outs.append((s1, some(eng.fresh(s1, c.node, 'item', eng.prog.ty(c.destty)["v"][1]["f"][0]["t"]))))
                if eng.assume(st, C('eq', n)):
                    outs.append((st, NONE))
                return outs
        return None
    n = it[3][0]
    if m in ("skip", "take") and len(A) == 2 and A[1] is not None and A[1][0] == 'L':
        outs = []
        s1 = st.copy()
        if eng.assume(s1, C('le', sub(A[1], n))):
            outs.append((s1, ('w', 'Some', None, (sub(n, A[1]) if m == "skip" else A[1],))))
        if eng.assume(st, C('le', add(sub(n, A[1]), ONE))):
            outs.append((st, ('w', 'Some', None, (ZERO if m == "skip" else n,))))
        return outs
    if m == "chain" and A[1] is not None and A[1][0] == 'w' and A[1][1] == 'Some' and A[1][3][0] is not None:
        return [(st, ('w', 'Some', None, (add(n, A[1][3][0]),)))]
    if m in ("rev", "copied", "cloned", "enumerate"):
        return [(st, it)]
    if m in ("len", "count"):
        return [(st, n)]
    if m in ("collect", "from_iter") and isinstance(c.destty, int) and eng.prog.ty(c.destty).get("path") in ("bit_vec::BitVec", "std::vec::Vec"):
        return [(st, ('vec', n, ('u', eng.freshsym(st, c.node, 'vc'), -1)))]
    return None


def vec_model(eng, st, c):
    p, m, A = c.path, c.method, c.args
    bv = p.startswith("bit_vec::")
    if m in ("new", "with_capacity", "default") and (not A or m == "with_capacity"):
        return [(st, ('vec', ZERO, None))]
    if m == "from_bytes" and bv:
        n = lenof(eng, st, A[0])
        if n is None:
            return None
        return [(st, ('vec', scale(n, 8), ('u', eng.freshsym(st, c.node, 'bits'), -1)))]
    if m == "from_elem" and bv:
        if A[0] is not None and A[0][0] == 'L':
            return [(st, ('vec', A[0], ('u', eng.freshsym(st, c.node, 'bits'), -1)))]
        return None
    if not A or A[0] is None or A[0][0] != 'ref':
        return None
    base, path, v = target(eng, st, A[0])
    if v is None:
        return None
    n = eng.veclen(v)
    if n is None:
        return None

    def newcontent(tag='vc'):
        return ('u', eng.freshsym(st, c.node, tag), -1)
    if m == "push":
        cont = v[2] if v[0] == 'vec' else None
        if n == ZERO or (cont is not None and cont[0] == 'arr' and isconst(n) and n[1] == len(cont[1]) and n[1] < 32):
            nc = ('arr', (cont[1] if cont is not None and cont[0] == 'arr' else ()) + (A[1],)) if A[1] is not None else newcontent()
        else:
            nc = newcontent()
        eng.store(st, c.node, base, path, ('vec', add(n, ONE), nc), 'vec')
        return [(st, UNITV)]
    if m == "get" and bv:
        ix = A[1]
        if ix is None or ix[0] != 'L':
            return None
        outs = []
        s1 = st.copy()
        if eng.assume(s1, C('le', add(sub(ix, n), ONE))):
            outs.append((s1, some(eng.fresh(s1, c.node, 'bit', eng.prog.ty(c.destty)["v"][1]["f"][0]["t"]))))
        if eng.assume(st, C('le', sub(n, ix))):
            outs.append((st, NONE))
        return outs
    if m == "split_off" and A[1] is not None and A[1][0] == 'L':
        if not eng.assume(st, C('le', sub(A[1], n))):
            return []
        eng.store(st, c.node, base, path, ('vec', A[1], newcontent()), 'vec')
        return [(st, ('vec', sub(n, A[1]), newcontent('vs')))]
    if m == "append":
        b2, p2, w = target(eng, st, A[1])
        n2 = eng.veclen(w) if w is not None else None
        if n2 is None:
            return None
        eng.store(st, c.node, base, path, ('vec', add(n, n2), newcontent()), 'vec')
        eng.store(st, c.node, b2, p2, ('vec', ZERO, None), 'vec2')
        return [(st, UNITV)]
    if m == "clear":
        eng.store(st, c.node, base, path, ('vec', ZERO, None), 'vec')
        return [(st, UNITV)]
    if m == "truncate" and A[1] is not None and A[1][0] == 'L':
        outs = []
        s1 = st.copy()
        if eng.assume(s1, C('le', sub(n, A[1]))):
            outs.append((s1, UNITV))
        if eng.assume(st, C('le', add(sub(A[1], n), ONE))):
            eng.store(st, c.node, base, path, ('vec', A[1], newcontent()), 'vec')
            outs.append((st, UNITV))
        return outs
    if m == "pop" and isinstance(c.destty, int):
        outs = []
        s1 = st.copy()
        if eng.assume(s1, C('le', sub(ONE, n))):
            et = eng.prog.ty(c.destty)["v"][1]["f"][0]["t"]
            x = eng.fresh(s1, c.node, 'pop', et)
            eng.store(s1, c.node, base, path, ('vec', sub(n, ONE), ('u', eng.freshsym(s1, c.node, 'vc'), -1)), 'vec')
            outs.append((s1, some(x)))
        if eng.assume(st, C('eq', n)):
            outs.append((st, NONE))
        return outs
    if m == "to_bytes" and bv:
        r = eng.div(st, add(n, L(7)), 8)
        return [(st, ('vec', r, ('u', eng.freshsym(st, c.node, 'tb'), -1)))]
    if m == "set" and bv:
        eng.store(st, c.node, base, path, ('vec', n, newcontent()), 'vec')
        return [(st, UNITV)]
    if m == "extend_from_slice":
        k = lenof(eng, st, A[1])
        if k is not None:
            eng.store(st, c.node, base, path, ('vec', add(n, k), newcontent()), 'vec')
            return [(st, UNITV)]
    if m in ("as_ptr", "capacity", "reserve", "shrink_to_fit"):
        return [(st, UNITV)] if m in ("reserve", "shrink_to_fit") else None
    return None
