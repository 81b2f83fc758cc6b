"""Rules decided on the whole crate at once: resolved calls, items, evaluated constants."""
from codecs_ import Anchor


def calls(prog):
    """(function, callee, span) for every resolved call in the compiled crate"""
    for f in prog.all():
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict):
                yield f, t[1], t[5]


def fnrefs(prog):
    """functions mentioned as values (passed as arguments, stored)"""
    def walk(x):
        if isinstance(x, dict):
            if x.get("kind") and x.get("path"):
                yield x
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    for f in prog.all():
        for b in f.blocks:
            for s in b["s"]:
                for c in walk(s):
                    yield f, c, s[-1]
            t = b["t"]
            if t[0] == "call":
                for c in walk(t[2]):
                    yield f, c, t[5]


class Lint:
    """one crate-wide rule; report(key, message)"""

    def __init__(self):
        self.reports = {}
        self.cov = {}
        self.samples = []

    def report(self, key, msg):
        self.reports.setdefault(key, msg)


OUTSIDE = ("std::fs", "std::process", "std::net", "std::thread", "std::os::", "std::env", "std::io::stdio",
           "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::_print", "std::io::_eprint", "std::io::Stdin",
           "std::io::Stdout", "std::io::Stderr", "std::panic::set_hook", "std::panicking", "std::alloc::set_alloc", "std::sys::", "libc::",
           "std::backtrace")


def hits(path, pats):
    """a path belongs to one of these modules, also through an impl"""
    p = path
    for q in pats:
        if p.startswith(q) or ("<" + q) in p or (" " + q) in p or ("&" + q) in p or ("(" + q) in p:
            return q
    return None


class Effects(Lint):
    """C12: no call out of the library reaches the world except through the caller's streams and the log"""

    def run(self, lib, bin_):
        n = 0
        seen = set()
        for f, c, sp in list(calls(lib)) + list(fnrefs(lib)):
            n += 1
            seen.add(c["path"])
            full = c.get("full", "")
            q = hits(c["path"], OUTSIDE) or hits(c.get("decl", ""), OUTSIDE)
            if not q:
                # a generic operation applied to an outside object: <File as Write>::write
                q = hits(full, OUTSIDE)
            if q:
                self.report((f.path, c["path"]), "%s (%s) calls %s: the library reaches outside the caller's streams" % (f.path, sp, c["path"]))
        for u in lib.d["unsafe"]:
            if u["k"].startswith("extern"):
                self.report(("extern", u["span"]), "foreign functions are declared at %s" % u["span"])
        self.cov = {"functions": len(lib.fns), "call_sites": n, "distinct_callees": len(seen)}
        self.samples = sorted(seen)[:5]


AMBIENT = OUTSIDE + ("std::time", "std::hash::random", "std::hash::RandomState", "std::collections::hash_map::RandomState",
                     "std::thread", "std::sync", "core::sync", "std::cell::once", "std::any", "std::panic::Location", "rand::", "getrandom::",
                     "std::intrinsics::caller_location", "std::mem::MaybeUninit", "std::mem::uninitialized", "std::alloc::")
ITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain",
        "extract_if", "fmt", "capacity")


class Determinism(Lint):
    """C11: nothing in the library can observe anything but its arguments"""

    def run(self, lib, bin_):
        n = 0
        seen = set()
        maps = 0
        for f, c, sp in list(calls(lib)) + list(fnrefs(lib)):
            n += 1
            p, full, decl = c["path"], c.get("full", ""), c.get("decl", "")
            seen.add(p)
            q = hits(p, AMBIENT) or hits(decl, AMBIENT)
            if not q and "HashMap" not in full and "HashSet" not in full and "hash_map" not in full:
                q = hits(full, AMBIENT)
            if q:
                self.report((f.path, p), "%s (%s) calls %s: its result is not determined by the arguments" % (f.path, sp, p))
            if "HashMap" in full or "HashSet" in full or "hash_map" in full or "hash_set" in full or "hash::map" in full:
                maps += 1
                m = p.rsplit("::", 1)[-1]
                if m in ITER or (decl or "").startswith("std::iter::"):
                    self.report((f.path, p), "%s (%s) calls %s: hash tables have no fixed order" % (f.path, sp, p))
        for f in lib.all():
            for b in f.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and str(s[2][1]).startswith(("PointerExpose", "FnPtrToPtr")):
                        self.report((f.path, "address"), "%s (%s) turns an address into a number" % (f.path, s[-1]))
        st = 0
        for it in lib.d["items"]:
            if it.get("mut") is not None or it.get("freeze") is not None:
                st += 1
                if it.get("mut") or not it.get("freeze", True):
                    self.report(("static", it["path"]), "%s (%s) is state shared between calls" % (it["path"], it["span"]))
        self.cov = {"functions": len(lib.fns), "call_sites": n, "distinct_callees": len(seen), "hash_table_calls": maps, "statics": st}
        if not maps and False:
            raise Anchor("hash tables")
        self.samples = sorted(seen)[:5]


class NoUnsafe(Lint):
    """C15: no unsafe code of the crate's own"""

    def run(self, lib, bin_):
        n = m = 0
        for prog in (lib, bin_):
            for u in prog.d["unsafe"]:
                if u.get("macro"):
                    m += 1
                    continue
                n += 1
                self.report((u["k"], u["span"]), "%s at %s" % (u["k"], u["span"]))
        self.cov = {"files": len(set(lib.d["files"]) | set(bin_.d["files"])), "functions": len(lib.fns) + len(bin_.fns),
                    "unsafe_in_derive_macros": m, "unsafe_in_source": n}
        if len(lib.d["files"]) < 5:
            raise Anchor("source files")
        self.samples = list(lib.d["files"])


def const(prog, v):
    """evaluated constant -> python value; aggregates with field names become dicts"""
    if v is None:
        return None
    if v["k"] == "int":
        return v["v"]
    if v["k"] == "agg":
        t = prog.ty(v["t"])
        if t.get("k") == "adt" and t.get("v"):
            vi = v.get("vi", 0)
            var = t["v"][vi]
            d = {f["n"]: const(prog, x) for f, x in zip(var["f"], v["v"])}
            if len(t["v"]) > 1:
                return (var["n"],) + tuple(d.values())
            return d
        return [const(prog, x) for x in v["v"]]
    return None


class Tables(Lint):
    """C19: the encoder's table of position prefixes and the decoder's tables describe one complete prefix code"""

    def run(self, lib, bin_):
        import itertools
        found = []
        for it in lib.d["items"]:
            v = const(lib, it.get("v"))
            if isinstance(v, list) and len(v) in (64, 256) and all(isinstance(x, int) for x in v):
                found.append((it["path"], it["span"], v))
        small = [x for x in found if len(x[2]) == 64]
        big = [x for x in found if len(x[2]) == 256]
        if not small or len(small) % 2 or len(big) != len(small):
            raise Anchor("position tables (%d of 64, %d of 256)" % (len(small), len(big)))
        # by module; two of each: lengths and codes
        mods = sorted({p.rsplit("::", 1)[0] for p, _, _ in found})
        checked = 0
        groups = []
        for m in mods:
            s = [x for x in small if x[0].rsplit("::", 1)[0] == m]
            b = [x for x in big if x[0].rsplit("::", 1)[0] == m]
            if len(s) != 2 or len(b) != 2:
                raise Anchor("position tables of %s" % m)
            # lengths are the tables bounded by 8
            s.sort(key=lambda x: max(x[2]))
            b.sort(key=lambda x: max(x[2]))
            plen, pcode = s
            dlen, dcode = b
            groups.append((plen[2], pcode[2], dlen[2], dcode[2]))
            for i in range(64):
                ln, co = plen[2][i], pcode[2][i]
                checked += 1
                if not 1 <= ln <= 8 or co & ((1 << (8 - ln)) - 1) or not 0 <= co < 256:
                    self.report((m, 'entry', i), "entry %d of %s/%s is not a left-aligned prefix of 1..8 bits (code %#x, length %d)" % (i, plen[0], pcode[0], co, ln))
                    continue
                for x in range(co, min(256, co + (1 << (8 - ln)))):
                    checked += 1
                    if dcode[2][x] != i:
                        self.report((m, 'code', i), "%s[%#x] is %d but the encoder writes position %d with that prefix" % (dcode[0], x, dcode[2][x], i))
                    if dlen[2][x] != ln:
                        self.report((m, 'len', i), "%s[%#x] is %d but the encoder's prefix for position %d has %d bits" % (dlen[0], x, dlen[2][x], i, ln))
            if sum(1 << (8 - l) for l in plen[2] if 0 <= l <= 8) != 256:
                self.report((m, 'kraft'), "the prefixes of %s do not fill the code space exactly" % plen[0])
        for g in groups[1:]:
            if g != groups[0]:
                self.report(('siblings',), "the position tables of %s differ" % " and ".join(mods))
        self.cov = {"tables": len(found), "table_entries_checked": checked, "modules": len(mods)}
        self.samples = [x[0] + " at " + x[1] for x in found]


FORMATS = {
    # what the on-disk formats fix; anything not listed is free
    "retrocompressor::lzw::STD_OPTIONS": dict(header_bits=0, in_offset=0, out_offset=0, min_symbol=0, max_symbol=255, clear_code=("Some", 256),
                                              stop_code=("Some", 257), min_code_width=12, max_code_width=12, ord=("Lsb0",), chunk_size=4096,
                                              max_file_size=1073741823),
    "retrocompressor::lzss_huff::STD_OPTIONS": dict(header=1, in_offset=0, out_offset=0, window_size=4096, threshold=2, lookahead=60, precursor=32,
                                                    max_file_size=1073741823),
    "retrocompressor::td0::TD_V1_OPTIONS": dict(header_bits=16, header_divisor=4, in_offset=12, out_offset=12, min_symbol=0, max_symbol=255,
                                                clear_code=("None",), stop_code=("None",), min_code_width=12, max_code_width=12, ord=("Lsb0",),
                                                chunk_size=4096, max_file_size=3000000),
    "retrocompressor::td0::TD_V2_OPTIONS": dict(header=0, in_offset=12, out_offset=12, window_size=4096, threshold=2, lookahead=60, precursor=32,
                                                max_file_size=3000000),
}


class Presets(Lint):
    """C26: the published option sets have the values their formats require"""

    def run(self, lib, bin_):
        n = 0
        for path, want in FORMATS.items():
            it = lib.item(path)
            if it is None:
                raise Anchor(path)
            v = const(lib, it.get("v"))
            if not isinstance(v, dict):
                raise Anchor("value of " + path)
            for k, w in want.items():
                if k not in v:
                    raise Anchor("%s.%s" % (path, k))
                n += 1
                got = v[k] if not isinstance(v[k], tuple) else tuple(v[k])
                if got != w:
                    self.report((path, k), "%s.%s (%s) is %s, the format requires %s" % (path, k, it["span"], got, w))
        self.cov = {"option_sets": len(FORMATS), "fields_checked": n}
        self.samples = sorted(FORMATS)


class Buffered(Lint):
    """C28: nothing looks at how much happens to be buffered"""

    def run(self, lib, bin_):
        n = 0
        for f, c, sp in list(calls(lib)) + list(fnrefs(lib)):
            n += 1
            full = c.get("full", "") + " " + c["path"]
            m = c["path"].rsplit("::", 1)[-1]
            if "std::io::" in full and m in ("buffer", "capacity") and "BufReader" in full:
                self.report((f.path, m), "%s (%s) calls %s: what it sees depends on how the stream delivered its bytes" % (f.path, sp, c["path"]))
        self.cov = {"call_sites": n}
