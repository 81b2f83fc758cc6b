"""The eight codec entry points and how a rule run is set up on each."""
from values import *
from engine import Eng, Rule
import ir, models

CODECS = {
    "lzw::compress": dict(path="retrocompressor::lzw::compress", opts=True, dir="compress", limit="opt"),
    "lzw::expand": dict(path="retrocompressor::lzw::expand", opts=True, dir="expand", limit="opt"),
    "lzss_huff::compress": dict(path="retrocompressor::lzss_huff::compress", opts=True, dir="compress", limit="opt"),
    "lzss_huff::expand": dict(path="retrocompressor::lzss_huff::expand", opts=True, dir="expand", limit="opt"),
    "lzhuf::encode": dict(path="retrocompressor::direct_ports::lzhuf::encode", opts=False, dir="compress", limit=(1 << 32) - 2),
    "lzhuf::decode": dict(path="retrocompressor::direct_ports::lzhuf::decode", opts=False, dir="expand", limit=None),
    "td0::compress": dict(path="retrocompressor::td0::compress", opts=False, dir="compress", limit=None),
    "td0::expand": dict(path="retrocompressor::td0::expand", opts=False, dir="expand", limit=None),
}


class Anchor(Exception):
    """something the rule is stated about is not in the program any more"""


def optfield(eng, fn, name):
    """entry value of a field of the options argument"""
    prog = eng.prog
    t = prog.ty(fn.locals[3])
    if t.get("k") == "ref":
        t = prog.ty(t["e"])
    vs = t.get("v")
    if not vs:
        raise Anchor("options type of %s" % fn.path)
    for i, f in enumerate(vs[0]["f"]):
        if f["n"] == name:
            a = sym(('arg', 2), None)
            star = ('u', sym(('*', a), None, (a,)), prog.ty(fn.locals[3])["e"])
            return eng.mkfield(star[1], None, i, f["t"])
    raise Anchor("option %s of %s" % (name, fn.path))


def runfn(prog, path, rules, argc=None, opts=None, entry=None, spec=None, init=None):
    """run rules on any function of the program"""
    ids = prog.find(path)
    if not ids:
        raise Anchor("%s: %d instances" % (path, len(ids)))
    fn = prog.fn(ids[0])
    if argc is not None and fn.argc != argc:
        raise Anchor("%s takes %d arguments" % (path, fn.argc))
    eng = Eng(prog, rules, opts)
    eng.entry = entry or path
    eng.entryfn = fn
    for r in rules:
        r.entry = eng.entry
        r.spec = spec
        r.entryfn = fn
    eng.run(ids[0], init=init)
    return eng


def run(prog, name, rules, opts=None, **kw):
    spec = CODECS[name]
    ids = prog.find(spec["path"])
    if not ids:
        raise Anchor("%s: %d instances" % (spec["path"], len(ids)))
    fn = prog.fn(ids[0])
    if fn.argc != (3 if spec["opts"] else 2):
        raise Anchor("%s takes %d arguments" % (spec["path"], fn.argc))
    eng = Eng(prog, rules, opts)
    eng.entry = name
    eng.entryfn = fn
    for r in rules:
        r.entry = name
        r.spec = spec
        r.entryfn = fn

    def init(e, st, fr):
        if not spec["opts"]:
            # these take streams positioned at their start
            for k in (0, 1):
                models.setpos(e, st, ('arg', k), ZERO)
    eng.run(ids[0], init=init)
    return eng
