"""Models of std, bit_vec and log for the bit engine.

A model returns [(state, value), ...] or NotImplemented.  Collections are plain tuples: ('v', elements) for
Vec, ('bv', bits) for BitVec, ('it', elements) for an iterator whose remaining elements are known."""
from bits import *

NONE = ('e', 0, ())


def some(v):
    return ('e', 1, (v,))


def ok(v):
    return ('e', 0, (v,))


def err(v):
    return ('e', 1, (v,))


EOF = ('a', ('unexpected eof',))


def bit(b):
    return b if b is not None and b <= 1 else (b,)


def model(I, st, cl, args, t):
    path = cl.get("path") or ""
    m = cl.get("method") or cl.get("imethod") or path.split("::")[-1]
    full = cl.get("full") or path
    crate = cl.get("crate") or ""
    if crate == "log" or "log::" in full and ("PartialOrd" in full or "LevelFilter" in full):
        # logging is switched off: it has no part in the result
        if m in ("le", "lt", "ge", "gt", "eq"):
            return [(st, 0)]
        if m == "partial_cmp":
            return [(st, some(('e', 2, ())))]
        return [(st, UNIT() if m in ("log", "loc") else TOP)]
    if "fmt::" in full or path.startswith("std::fmt") or path.startswith("core::fmt"):
        return [(st, TOP)]
    if "precondition_check" in path or m == "cold_path":
        return [(st, UNIT())]
    h = globals().get("m_" + m)
    recv = deref(I, st, args[0]) if args else None
    if path.startswith("bit_vec::BitVec"):
        r = bitvec(I, st, m, args, recv)
        if r is not NotImplemented:
            return r
    if recv is not None and recv is not TOP and recv.__class__ is tuple and recv and recv[0].__class__ is str:
        h = DISPATCH.get((recv[0], m)) or (recv[0] in ('sl', 'v', 'a') and DISPATCH.get(('seq', m)))
        if h and not (recv[0] == 'a' and not isseq(I, t, args)):
            r = h(I, st, args, recv, t, cl)
            if r is not NotImplemented:
                return [(st, r)] if not isinstance(r, list) else r
    h = FREE.get(m)
    if h:
        r = h(I, st, args, t, cl, full)
        if r is not NotImplemented:
            return [(st, r)] if not isinstance(r, list) else r
    return NotImplemented


def isseq(I, t, args):
    """the first argument is (a reference to) an array or slice"""
    if len(t) > 7 and t[7]:
        ty = I.prog.ty(t[7][0])
        for _ in range(3):
            if ty.get("k") in ("array", "slice"):
                return True
            if ty.get("k") in ("ref", "ptr"):
                ty = I.prog.ty(ty.get("e", -1))
                continue
            return False
    return False


def ptr(I, st, v):
    """innermost object a chain of references leads to: (obj, path)"""
    while v is not None and v is not TOP and v.__class__ is tuple and v and v[0] == 'r':
        o, p = v[1], v[2]
        v = I.get(st, o, p)
        if v is None or v is TOP or v.__class__ is not tuple or not v or v[0] != 'r':
            return o, p
    return None


def deref(I, st, v):
    n = 0
    while v is not None and v is not TOP and v.__class__ is tuple and v and v[0] == 'r':
        v = I.get(st, v[1], v[2])
        n += 1
        if n > 10:
            return TOP
    return v


def items(I, st, v):
    """elements of a slice, array or vector value (not reference)"""
    if v is None or v is TOP:
        return None
    if v[0] == 'sl':
        arr = I.get(st, v[1], v[2])
        if arr is None or arr is TOP:
            return None
        return arr[1][v[3]:v[3] + v[4]]
    if v[0] in ('v', 'a', 'it'):
        return v[1]
    if v[0] == 'str':
        return tuple(v[1].encode())
    return None


def sliceof(I, st, v):
    """reference to slice, array or vector -> ('sl', ...)"""
    if v is TOP or v is None:
        return None
    if v[0] == 'sl':
        return v
    if v[0] == 'r':
        p = ptr(I, st, v)
        x = I.get(st, *p)
        if x is not TOP and x is not None and x[0] == 'sl':
            return x
        if x is not TOP and x is not None and x[0] in ('v', 'a'):
            return ('sl', p[0], p[1], 0, len(x[1]))
    return None


def put_items(I, st, sl, vals):
    arr = I.get(st, sl[1], sl[2])
    e = arr[1]
    I.put(st, sl[1], sl[2], (arr[0], e[:sl[3]] + tuple(vals) + e[sl[3] + len(vals):]))


# ---------------------------------------------------------------- BitVec
def bitvec(I, st, m, args, recv):
    def setv(v):
        o, p = ptr(I, st, args[0])
        I.put(st, o, p, ('bv', tuple(v)))

    def r(v):
        return [(st, v)]
    if m in ("new", "default") or m == "with_capacity":
        return r(('bv', ()))
    if m == "from_bytes":
        bs = items(I, st, deref(I, st, args[0]))
        out = []
        for b in bs:
            out += list(reversed(nbits(b, 8)))
        return r(('bv', tuple(out)))
    if m == "from_elem" and args[0].__class__ is int:
        return r(('bv', tuple(nbits(args[1], 1)) * args[0]))
    if recv is None or recv is TOP or recv[0] != 'bv':
        return NotImplemented
    b = recv[1]
    if m == "push":
        setv(b + (nbits(args[1], 1)[0],))
        return r(UNIT())
    if m == "pop":
        if not b:
            return r(NONE)
        setv(b[:-1])
        return r(some(bit(b[-1])))
    if m == "len":
        return r(len(b))
    if m == "is_empty":
        return r(int(not b))
    if m == "get":
        i = args[1]
        if i.__class__ is not int:
            return NotImplemented
        return r(some(bit(b[i])) if i < len(b) else NONE)
    if m == "set" and args[1].__class__ is int:
        if args[1] >= len(b):
            I.panics[("BitVec::set", "")] = "index out of range"
            return []
        setv(b[:args[1]] + (nbits(args[2], 1)[0],) + b[args[1] + 1:])
        return r(UNIT())
    if m == "to_bytes":
        out = []
        for i in range(0, len(b), 8):
            ch = list(b[i:i + 8]) + [0] * (8 - len(b[i:i + 8]))
            out.append(mk(list(reversed(ch))))
        return r(('v', tuple(out)))
    if m == "append":
        o, p = ptr(I, st, args[1])
        other = I.get(st, o, p)
        I.put(st, o, p, ('bv', ()))
        setv(b + other[1])
        return r(UNIT())
    if m == "clone":
        return r(recv)
    if m == "truncate" and args[1].__class__ is int:
        setv(b[:args[1]])
        return r(UNIT())
    if m == "clear":
        setv((0,) * len(b))
        return r(UNIT())
    if m == "set_all":
        setv((1,) * len(b))
        return r(UNIT())
    if m == "grow" and args[1].__class__ is int:
        setv(b + tuple(nbits(args[2], 1)) * args[1])
        return r(UNIT())
    if m == "split_off" and args[1].__class__ is int:
        setv(b[:args[1]])
        return r(('bv', b[args[1]:]))
    if m in ("iter", "into_iter"):
        return r(('it', tuple(bit(x) for x in b)))
    if m in ("any", "none", "all"):
        x = 0
        for y in b:
            x = bor(x, y if m != "all" else bnot(y))
        return r(bit(x if m == "any" else bnot(x)))
    if m == "reserve" or m == "shrink_to_fit":
        return r(UNIT())
    if m == "negate":
        setv(tuple(bnot(x) for x in b))
        return r(UNIT())
    return NotImplemented


# ---------------------------------------------------------------- sequences
DISPATCH = {}
FREE = {}


def on(*keys):
    def d(f):
        for k in keys:
            DISPATCH[k] = f
        return f
    return d


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


@on(('bv', 'clone'), ('v', 'clone'), ('it', 'clone'), ('v', 'to_vec'))
def _clone(I, st, a, v, t, cl):
    return v


@on(('sl', 'to_vec'), ('sl', 'to_owned'), ('sl', 'into_vec'), ('seq', 'to_vec'))
def _to_vec(I, st, a, v, t, cl):
    x = items(I, st, v)
    return ('v', tuple(x)) if x is not None else NotImplemented


@on(('bv', 'index'))
def _bvindex(I, st, a, v, t, cl):
    if a[1].__class__ is not int:
        return NotImplemented
    if a[1] >= len(v[1]):
        I.panics[("BitVec::index", "")] = "index out of range"
        return []
    I.nframe += 1
    st.mem[('tmp', I.nframe)] = bit(v[1][a[1]])
    return ('r', ('tmp', I.nframe), ())


@on(('seq', 'len'))
def _len(I, st, a, v, t, cl):
    return v[4] if v[0] == 'sl' else len(v[1])


@on(('seq', 'is_empty'))
def _is_empty(I, st, a, v, t, cl):
    return int(_len(I, st, a, v, t, cl) == 0)


def rng(I, st, ix, n, full):
    """(start, end) of a range value"""
    if ix is TOP or ix is None:
        return None
    if "RangeFull" in full:
        return 0, n
    f = ix[1] if ix[0] == 'a' else ()
    if any(x.__class__ is not int for x in f[:2]):
        return None
    if "RangeFrom" in full:
        return f[0], n
    if "RangeToInclusive" in full:
        return 0, f[0] + 1
    if "RangeTo<" in full:
        return 0, f[0]
    if "RangeInclusive" in full:
        return f[0], f[1] + 1
    if "Range<" in full:
        return f[0], f[1]
    return None


@on(('seq', 'index'), ('seq', 'index_mut'), ('seq', 'get_unchecked'))
def _index(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    if sl is None:
        return NotImplemented
    ix = a[1]
    if I.isint(ix):
        if ix.__class__ is int:
            if ix >= sl[4]:
                I.panics[(cl.get("full"), t[5])] = "index out of range"
                return []
            return ('r', sl[1], sl[2] + (sl[3] + ix,))
        x = I.lookup(st, ('ix', sl[1], sl[2], sl[3], sl[4], ix))
        I.nframe += 1
        st.mem[('tmp', I.nframe)] = x
        return ('r', ('tmp', I.nframe), ())
    r = rng(I, st, ix, sl[4], cl.get("full") or "")
    if r is None:
        return NotImplemented
    if r[0] > r[1] or r[1] > sl[4]:
        I.panics[(cl.get("full"), t[5])] = "range out of bounds"
        return []
    return ('sl', sl[1], sl[2], sl[3] + r[0], r[1] - r[0])


@on(('seq', 'get'), ('seq', 'get_mut'))
def _get(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    if sl is None or a[1].__class__ is not int:
        return NotImplemented
    return some(('r', sl[1], sl[2] + (sl[3] + a[1],))) if a[1] < sl[4] else NONE


@on(('seq', 'first'), ('seq', 'last'))
def _first(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    if sl is None:
        return NotImplemented
    if sl[4] == 0:
        return NONE
    i = 0 if cl.get("path", "").endswith("first") else sl[4] - 1
    return some(('r', sl[1], sl[2] + (sl[3] + i,)))


@on(('v', 'push'))
def _push(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    I.put(st, o, p, ('v', v[1] + (a[1],)))
    return UNIT()


@on(('v', 'pop'))
def _pop(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    if not v[1]:
        return NONE
    I.put(st, o, p, ('v', v[1][:-1]))
    return some(v[1][-1])


@on(('v', 'clear'))
def _clear(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    I.put(st, o, p, ('v', ()))
    return UNIT()


@on(('v', 'truncate'))
def _truncate(I, st, a, v, t, cl):
    if a[1].__class__ is not int:
        return NotImplemented
    o, p = ptr(I, st, a[0])
    I.put(st, o, p, ('v', v[1][:a[1]]))
    return UNIT()


@on(('v', 'resize'))
def _resize(I, st, a, v, t, cl):
    if a[1].__class__ is not int:
        return NotImplemented
    o, p = ptr(I, st, a[0])
    e = v[1][:a[1]]
    I.put(st, o, p, ('v', e + (a[2],) * (a[1] - len(e))))
    return UNIT()


@on(('v', 'reserve'), ('v', 'shrink_to_fit'))
def _nop(I, st, a, v, t, cl):
    return UNIT()


@on(('v', 'extend_from_slice'), ('v', 'append'))
def _extend(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    x = items(I, st, deref(I, st, a[1]))
    if x is None:
        return NotImplemented
    if cl.get("path", "").endswith("append"):
        q = ptr(I, st, a[1])
        I.put(st, q[0], q[1], ('v', ()))
    I.put(st, o, p, ('v', v[1] + tuple(x)))
    return UNIT()


@on(('v', 'extend'), ('bv', 'extend'))
def _extend2(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    x = material(I, st, a[1])
    if x is None:
        return NotImplemented
    if v[0] == 'bv':
        I.put(st, o, p, ('bv', v[1] + tuple(nbits(deref(I, st, y), 1)[0] for y in x)))
    else:
        I.put(st, o, p, ('v', v[1] + tuple(deref(I, st, y) for y in x)))
    return UNIT()


@on(('v', 'as_slice'), ('v', 'as_mut_slice'), ('v', 'deref'), ('v', 'deref_mut'), ('seq', 'as_ref'), ('seq', 'as_mut'), ('seq', 'borrow'), ('seq', 'as_slice'))
def _as_slice(I, st, a, v, t, cl):
    r = sliceof(I, st, a[0])
    return r if r is not None else NotImplemented


@on(('str', 'as_bytes'))
def _as_bytes(I, st, a, v, t, cl):
    key = ('K', 'str', v[1])
    st.mem[key] = ('a', tuple(v[1].encode()))
    return ('sl', key, (), 0, len(st.mem[key][1]))


@on(('seq', 'copy_from_slice'), ('seq', 'clone_from_slice'))
def _copy(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    x = items(I, st, deref(I, st, a[1]))
    if sl is None or x is None:
        return NotImplemented
    if len(x) != sl[4]:
        I.panics[(cl.get("full"), t[5])] = "lengths differ"
        return []
    put_items(I, st, sl, x)
    return UNIT()


@on(('seq', 'fill'))
def _fill(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    put_items(I, st, sl, (a[1],) * sl[4])
    return UNIT()


@on(('seq', 'reverse'))
def _reverse(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    put_items(I, st, sl, tuple(reversed(items(I, st, sl))))
    return UNIT()


@on(('seq', 'swap'))
def _swap(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    e = list(items(I, st, sl))
    i, j = a[1], a[2]
    if i.__class__ is not int or j.__class__ is not int:
        return NotImplemented
    e[i], e[j] = e[j], e[i]
    put_items(I, st, sl, tuple(e))
    return UNIT()


@on(('seq', 'eq'), ('seq', 'ne'))
def _eq(I, st, a, v, t, cl):
    x, y = items(I, st, v), items(I, st, deref(I, st, a[1]))
    if x is None or y is None:
        return NotImplemented
    if len(x) != len(y):
        r = 0
    else:
        r = 1
        for p, q in zip(x, y):
            if not (I.isint(p) and I.isint(q)):
                return NotImplemented
            r = band(r, I.eq([reduce(m, st.eqs) for m in nbits(p, 64)], [reduce(m, st.eqs) for m in nbits(q, 64)]))
    if (cl.get("method") or cl.get("path", "").split("::")[-1]) == "ne":
        r = bnot(r)
    return bit(r)


# ---------------------------------------------------------------- iterators
def material(I, st, v):
    """all elements an iterator value still yields"""
    v0 = v
    v = deref(I, st, v)
    if v is None or v is TOP:
        return None
    if v[0] == 'it':
        return v[1]
    if v[0] == 'bv':
        return tuple(bit(x) for x in v[1])
    if v[0] == 'v':
        return v[1]
    if v[0] == 'sl':
        return tuple(('r', v[1], v[2] + (v[3] + i,)) for i in range(v[4]))
    if v[0] == 'a' and len(v[1]) == 2 and all(x.__class__ is int for x in v[1]):
        return tuple(range(v[1][0], v[1][1]))
    if v[0] == 'a' and len(v[1]) == 3 and all(x.__class__ is int for x in v[1]):
        return tuple(range(v[1][0], v[1][1] + (0 if v[1][2] else 1)))
    if v[0] == 'a' and len(v[1]) == 1:
        x = material(I, st, v[1][0])          # Rev
        return tuple(reversed(x)) if x is not None else None
    return None


@on(('seq', 'iter'), ('seq', 'iter_mut'))
def _iter(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    if sl is None:
        return NotImplemented
    return ('it', tuple(('r', sl[1], sl[2] + (sl[3] + i,)) for i in range(sl[4])))


@on(('v', 'into_iter'), ('sl', 'into_iter'), ('seq', 'into_iter'))
def _into_iter(I, st, a, v, t, cl):
    if a[0] is not TOP and a[0][0] in ('r', 'sl'):
        return _iter(I, st, a, v, t, cl)
    return ('it', v[1])


@on(('it', 'into_iter'), ('it', 'by_ref'), ('it', 'fuse'))
def _self(I, st, a, v, t, cl):
    return a[0]


@on(('seq', 'chunks'), ('seq', 'chunks_exact'), ('seq', 'windows'))
def _chunks(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[0])
    n = a[1]
    if sl is None or n.__class__ is not int or n == 0:
        return NotImplemented
    m = cl.get("path", "").split("::")[-1]
    out = []
    if m == "windows":
        for i in range(sl[4] - n + 1):
            out.append(('sl', sl[1], sl[2], sl[3] + i, n))
    else:
        for i in range(0, sl[4], n):
            k = min(n, sl[4] - i)
            if k == n or m == "chunks":
                out.append(('sl', sl[1], sl[2], sl[3] + i, k))
    return ('it', tuple(out))


@on(('it', 'next'))
def _next(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    if not v[1]:
        return NONE
    I.put(st, o, p, ('it', v[1][1:]))
    return some(v[1][0])


@on(('it', 'next_back'))
def _next_back(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    if not v[1]:
        return NONE
    I.put(st, o, p, ('it', v[1][:-1]))
    return some(v[1][-1])


@on(('it', 'nth'))
def _nth(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    n = a[1]
    if n.__class__ is not int:
        return NotImplemented
    I.put(st, o, p, ('it', v[1][n + 1:]))
    return some(v[1][n]) if n < len(v[1]) else NONE


@on(('it', 'len'), ('it', 'count'))
def _itlen(I, st, a, v, t, cl):
    return len(v[1])


def adapt(I, st, a, m):
    x = material(I, st, a[0])
    if x is None:
        return NotImplemented
    if m == "rev":
        return ('it', tuple(reversed(x)))
    if m in ("copied", "cloned"):
        return ('it', tuple(deref(I, st, y) for y in x))
    if m == "enumerate":
        return ('it', tuple(('a', (i, y)) for i, y in enumerate(x)))
    if m in ("skip", "take", "step_by"):
        n = a[1]
        if n.__class__ is not int:
            return NotImplemented
        return ('it', x[n:] if m == "skip" else x[:n] if m == "take" else x[::n])
    if m in ("zip", "chain"):
        y = material(I, st, a[1])
        if y is None:
            return NotImplemented
        return ('it', tuple(('a', p) for p in zip(x, y)) if m == "zip" else x + y)
    return NotImplemented


@free("rev", "copied", "cloned", "enumerate", "skip", "take", "step_by", "zip", "chain")
def _adapt(I, st, a, t, cl, full):
    if cl.get("trait") not in ("std::iter::Iterator", None) and "Iterator" not in (cl.get("decl") or ""):
        return NotImplemented
    return adapt(I, st, a, (cl.get("method") or cl.get("path", "").split("::")[-1]))


def callclosure(I, st, f, ty, args):
    """call a closure value on arguments -> [(state, value)]"""
    fid = I.prog.ty(ty).get("fn")
    if fid is None:
        raise Unsupported("closure body not found")
    fn = I.prog.fn(fid)
    env = f
    if I.prog.ty(fn.locals[1]).get("k") == "ref" and (f is TOP or f[0] != 'r'):
        I.nframe += 1
        st.mem[('tmp', I.nframe)] = f
        env = ('r', ('tmp', I.nframe), ())
    return I.call_fn(st, fid, [env] + list(args))


@free("map", "for_each", "fold", "filter", "any", "all", "position", "sum")
def _hof(I, st, a, t, cl, full):
    if "Iterator" not in (cl.get("decl") or cl.get("path") or ""):
        return NotImplemented
    m = cl.get("method") or cl.get("path", "").split("::")[-1]
    x = material(I, st, a[0])
    if x is None:
        return NotImplemented
    if m == "sum":
        ty = I.ity(t[6])
        acc = 0
        for y in x:
            acc = I.binop(st, "Add", acc, deref(I, st, y), ty, None)
        return acc
    if m in ("any", "all", "position", "filter"):
        return NotImplemented
    argt = t[7]
    fty = argt[2] if m == "fold" else argt[1]
    f = a[2] if m == "fold" else a[1]
    if I.prog.ty(fty).get("k") in ("ref",):
        fty = I.prog.ty(fty).get("e")
    if I.prog.ty(fty).get("k") != "closure":
        return NotImplemented
    # keep a mutable environment in one place
    I.nframe += 1
    key = ('tmp', I.nframe)
    if f is TOP or f[0] != 'r':
        st.mem[key] = f
        f = ('r', key, ())
    states = [(st, a[1] if m == "fold" else (), 0)]
    for y in x:
        nxt = []
        for s, acc, _ in states:
            for s2, v in callclosure(I, s, f, fty, [acc, y] if m == "fold" else [y]):
                nxt.append((s2, v if m == "fold" else acc + (v,), 0))
        states = nxt
    return [(s, acc if m == "fold" else UNIT() if m == "for_each" else ('it', acc)) for s, acc, _ in states]


@free("collect", "from_iter")
def _collect(I, st, a, t, cl, full):
    x = material(I, st, a[0])
    if x is None:
        return NotImplemented
    dt = I.s(t[6])
    if "BitVec" in dt:
        return ('bv', tuple(nbits(deref(I, st, y), 1)[0] for y in x))
    if dt.startswith("std::vec::Vec"):
        return ('v', tuple(x))
    return NotImplemented


# ---------------------------------------------------------------- values
@free("from_elem")
def _from_elem(I, st, a, t, cl, full):
    if a[1].__class__ is not int:
        return NotImplemented
    return ('v', (a[0],) * a[1])


@free("new", "with_capacity", "default")
def _new(I, st, a, t, cl, full):
    p = cl.get("path") or ""
    dt = I.s(t[6])
    if dt.startswith("std::vec::Vec"):
        return ('v', ())
    if p.startswith("std::boxed::Box") and a:
        return ('box', a[0])
    if dt == "bit_vec::BitVec":
        return ('bv', ())
    return NotImplemented


@free("to_le_bytes", "to_be_bytes", "to_ne_bytes")
def _to_bytes(I, st, a, t, cl, full):
    ty = I.ity(t[7][0]) if t[7] else None
    if ty is None or not I.isint(a[0]):
        return NotImplemented
    b = nbits(a[0], ty[0])
    bs = [mk(b[i:i + 8]) for i in range(0, ty[0], 8)]
    return ('a', tuple(reversed(bs) if "to_be" in full else bs))


@free("from_le_bytes", "from_be_bytes", "from_ne_bytes")
def _from_bytes(I, st, a, t, cl, full):
    x = items(I, st, a[0])
    if x is None:
        return NotImplemented
    return I.frombytes(reversed(x) if "from_be" in full else x)


@free("reverse_bits", "swap_bytes", "leading_zeros", "trailing_zeros", "count_ones", "rotate_left", "rotate_right")
def _bitops(I, st, a, t, cl, full):
    ty = I.ity(t[7][0]) if t[7] else None
    if ty is None or not I.isint(a[0]):
        return NotImplemented
    n = ty[0]
    b = nbits(a[0], n)
    m = cl.get("path", "").split("::")[-1]
    if m == "reverse_bits":
        return mk(list(reversed(b)))
    if m == "swap_bytes":
        return mk([y for i in range(n - 8, -1, -8) for y in b[i:i + 8]])
    if m.startswith("rotate") and a[1].__class__ is int:
        k = a[1] % n
        if m == "rotate_right":
            k = n - k
        return mk(b[n - k:] + b[:n - k])
    if a[0].__class__ is int:
        v = a[0]
        return bin(v).count("1") if m == "count_ones" else n - v.bit_length() if m == "leading_zeros" else (n if v == 0 else (v & -v).bit_length() - 1)
    return (None,) * 32


@free("wrapping_add", "wrapping_sub", "wrapping_shl", "wrapping_shr", "wrapping_mul")
def _wrapping(I, st, a, t, cl, full):
    ty = I.ity(t[7][0]) if t[7] else None
    if ty is None:
        return NotImplemented
    m = cl.get("path", "").split("::")[-1][9:].capitalize()
    return I.binop(st, m, a[0], a[1], ty, None)


@free("is_multiple_of")
def _multiple(I, st, a, t, cl, full):
    if a[0].__class__ is int and a[1].__class__ is int:
        return int(a[0] % a[1] == 0) if a[1] else int(a[0] == 0)
    return NotImplemented


@free("div_ceil", "next_multiple_of", "min", "max", "integer_min", "integer_max", "saturating_sub", "saturating_add", "abs_diff", "pow")
def _constops(I, st, a, t, cl, full):
    x = [deref(I, st, y) for y in a]
    if len(x) == 2 and all(y.__class__ is int for y in x) and t[7] and I.ity(t[7][0]) and not I.ity(t[7][0])[1]:
        p, q = x
        m = cl.get("path", "").split("::")[-1]
        n = I.ity(t[7][0])[0]
        r = {"div_ceil": lambda: -(-p // q), "next_multiple_of": lambda: -(-p // q) * q, "min": lambda: min(p, q), "max": lambda: max(p, q),
             "integer_min": lambda: min(p, q), "integer_max": lambda: max(p, q),
             "saturating_sub": lambda: max(p - q, 0), "saturating_add": lambda: min(p + q, (1 << n) - 1), "abs_diff": lambda: abs(p - q),
             "pow": lambda: p ** q}[m]()
        return r if r < (1 << n) else NotImplemented
    m = cl.get("path", "").split("::")[-1]
    ty = I.ity(t[7][0]) if t[7] else None
    if len(x) == 2 and m in ("min", "max", "integer_min", "integer_max") and ty and all(y is not TOP and I.isint(y) for y in x):
        return select(I, st, I.binop(st, "Lt" if m.endswith("min") else "Gt", x[0], x[1], ty, None), x[0], x[1], ty[0])
    return NotImplemented


def select(I, st, c, x, y, n):
    """c ? x : y"""
    if c.__class__ is int:
        return x if c else y
    c = reduce(c[0], st.eqs)
    if c is not None and c <= 1:
        return x if c else y
    out = []
    for p, q in zip(nbits(x, n), nbits(y, n)):
        p, q = reduce(p, st.eqs), reduce(q, st.eqs)
        d = bxor(p, q)
        out.append(p if d == 0 else bxor(q, c) if d == 1 else None)
    return mk(out)


@free("clone")
def _clonev(I, st, a, t, cl, full):
    v = deref(I, st, a[0])
    if cl.get("fn") is None or (v is not TOP and v is not None and (I.isint(v) or v[0] in ('bv', 'v'))):
        return v
    return NotImplemented


@free("kind")
def _kind(I, st, a, t, cl, full):
    if "io::Error" not in full and "std::io" not in full:
        return NotImplemented
    if deref(I, st, a[0]) == EOF:
        for n, v in enumerate(I.prog.ty(t[6]).get("v", ())):
            if v["n"] == "UnexpectedEof":
                return ('e', n, ())
    return TOP


@free("eq", "ne")
def _eqenum(I, st, a, t, cl, full):
    """derived comparison of values without fields, and of integers"""
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if x is TOP or y is TOP or x is None or y is None:
        return (None,)
    neg = (cl.get("method") or cl.get("path", "").split("::")[-1]) == "ne"
    if x[0] == 'e' and y[0] == 'e' and x[1].__class__ is int and y[1].__class__ is int and (x[1] != y[1] or not x[2] and not y[2]):
        return int((x[1] == y[1]) != neg)
    return NotImplemented


@free("from", "into")
def _from(I, st, a, t, cl, full):
    if t[7] and t[7][0] == t[6]:
        return a[0]
    x, y = I.ity(t[7][0]) if t[7] else None, I.ity(t[6])
    if x and y and I.isint(a[0]):
        return I.cast("x", "IntToInt", a[0], t[6], t[7][0]) if False else mk(sext(nbits(a[0], x[0]), y[0], x[1]))
    if "dyn std::error::Error" in I.s(t[6]):
        return ('box', a[0])
    return NotImplemented


@free("replace", "take", "swap")
def _mem(I, st, a, t, cl, full):
    p = cl.get("path") or ""
    if not p.startswith("std::mem::") and not p.startswith("core::mem::"):
        return NotImplemented
    o = ptr(I, st, a[0])
    old = I.get(st, *o)
    if p.endswith("replace"):
        I.put(st, o[0], o[1], a[1])
        return old
    if p.endswith("swap"):
        q = ptr(I, st, a[1])
        I.put(st, o[0], o[1], I.get(st, *q))
        I.put(st, q[0], q[1], old)
        return UNIT()
    if old is not TOP and old[0] in ('bv', 'v'):
        I.put(st, o[0], o[1], (old[0], ()))
        return old
    if I.isint(old):
        I.put(st, o[0], o[1], 0)
        return old
    return NotImplemented


# ---------------------------------------------------------------- streams
# ('W', position, ((offset, byte), ...)) and ('R', position, bytes)
def wput(v, bs):
    d = dict(v[2])
    p = v[1]
    for b in bs:
        d[p] = b
        p += 1
    return ('W', p, tuple(sorted(d.items())))


@on(('W', 'write_all'), ('W', 'write'))
def _write(I, st, a, v, t, cl):
    x = items(I, st, deref(I, st, a[1]))
    if x is None:
        return NotImplemented
    o, p = ptr(I, st, a[0])
    I.put(st, o, p, wput(v, x))
    return ok(UNIT() if cl.get("method") == "write_all" else len(x))


@on(('W', 'flush'))
def _flush(I, st, a, v, t, cl):
    return ok(UNIT())


@on(('W', 'by_ref'), ('R', 'by_ref'))
def _byref(I, st, a, v, t, cl):
    return a[0]


def signed(v):
    return v - (1 << 64) if v >> 63 else v


@on(('W', 'seek'), ('R', 'seek'))
def _seek(I, st, a, v, t, cl):
    w = a[1]
    if w is TOP or w[0] != 'e' or not all(x.__class__ is int for x in w[2]):
        return NotImplemented
    n = {0: lambda: w[2][0], 2: lambda: v[1] + signed(w[2][0])}.get(w[1], lambda: None)()
    if n is None or n < 0:
        return NotImplemented
    o, p = ptr(I, st, a[0])
    I.put(st, o, p, (v[0], n) + v[2:])
    return ok(n)


@on(('W', 'seek_relative'), ('R', 'seek_relative'))
def _seekrel(I, st, a, v, t, cl):
    if a[1].__class__ is not int:
        return NotImplemented
    o, p = ptr(I, st, a[0])
    I.put(st, o, p, (v[0], v[1] + signed(a[1])) + v[2:])
    return ok(UNIT())


@on(('W', 'stream_position'), ('R', 'stream_position'))
def _pos(I, st, a, v, t, cl):
    return ok(v[1])


def rbyte(I, v, i):
    """byte i of the input: v[2] is a source shared by all states"""
    src = v[2]
    while len(src) <= i:
        src.append(None)
    if src[i] is None:
        src[i] = I.atoms(8)
    return src[i]


class Source(list):
    """bytes of an input stream, made up as they are read; end: None or its length"""
    end = None

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


@on(('R', 'read_exact'))
def _read_exact(I, st, a, v, t, cl):
    sl = sliceof(I, st, a[1])
    if sl is None:
        return NotImplemented
    o, p = ptr(I, st, a[0])
    n = sl[4]
    if v[2].end is not None and v[1] + n > v[2].end:
        I.put(st, o, p, ('R', v[2].end, v[2]))
        return err(EOF)
    put_items(I, st, sl, tuple(rbyte(I, v, v[1] + i) for i in range(n)))
    I.put(st, o, p, ('R', v[1] + n, v[2]))
    return ok(UNIT())


@on(('R', 'next'))
def _rnext(I, st, a, v, t, cl):
    o, p = ptr(I, st, a[0])
    if v[2].end is not None and v[1] >= v[2].end:
        return NONE
    I.put(st, o, p, ('R', v[1] + 1, v[2]))
    return some(ok(rbyte(I, v, v[1])))


@on(('R', 'bytes'))
def _bytes(I, st, a, v, t, cl):
    return a[0]
