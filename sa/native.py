"""the search of engine.Ub, compiled (ub.c); without a C compiler the engine does it itself"""
import ctypes, hashlib, os, struct, subprocess

LIM = 1 << 125

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SA_BUILD", os.path.join(os.path.dirname(HERE), "build"))
LIB = None


def load():
    global LIB
    try:
        src = os.path.join(HERE, "ub.c")
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        so = os.path.join(BUILD, "ub-%s.so" % h)
        if not os.path.exists(so):
            os.makedirs(BUILD, exist_ok=True)
            tmp = "%s.%d" % (so, os.getpid())
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, capture_output=True, timeout=120)
            os.replace(tmp, so)
        LIB = ctypes.CDLL(so)
    except Exception:
        LIB = None


if os.environ.get("SA_NATIVE", "1") != "0":
    load()

FB, BB = {}, {}


def num(v):
    return v.to_bytes(16, "little", signed=True)


def form(l, op=0):
    if abs(l[1]) >= LIM or any(abs(k) >= LIM for _, k in l[2]):
        return None
    return struct.pack("<ii", len(l[2]), op) + num(l[1]) + b"".join([struct.pack("<ii", s, 0) + num(k) for s, k in l[2]])


def bound(b):
    r = BB.get(b)
    if r is None:
        r = BB[b] = num(max(-2 * LIM, min(2 * LIM, b[0]))) + num(max(-2 * LIM, min(2 * LIM, b[1])))
    return r


def give(eng, st, syms, AX):
    """hand the facts of the state to the library"""
    fs, pool, todo = [], set(), list(syms)
    for f in st.facts:
        if f[0] == 'C' and f[1] != 'ne':
            fs.append(f)
            for s, _ in f[2][2]:
                todo.append(s)
    for v in todo:
        if v in pool:
            continue
        pool.add(v)
        for f in AX.get(v, ()):
            if f[0] == 'C' and f[1] != 'ne':
                fs.append(f)
                for s, _ in f[2][2]:
                    if s not in pool:
                        todo.append(s)
    out = []
    for f in fs:
        b = FB.get(f)
        if b is None:
            b = FB[f] = form(f[2], int(f[1] == 'eq')) or b""
        if b:
            out.append(b)
    p = [struct.pack("<ii", s, 0) + bound(eng.symb(st, s)) for s in pool]
    LIB.ub_load(b"".join(p), len(p), b"".join(out), len(out))


OUT = ctypes.create_string_buffer(16)


def find(l, depth, best, target):
    """-> a bound, or None if it has to be searched for elsewhere"""
    f = form(l)
    if f is None or (target is not None and abs(target) >= LIM):
        return None
    b = num(max(-2 * LIM, min(2 * LIM, best)))
    r = LIB.ub_run(f, depth, b, int(target is not None), num(target or 0), OUT)
    if r == 2:
        return None
    return best if r == 1 else int.from_bytes(OUT.raw, "little", signed=True)
