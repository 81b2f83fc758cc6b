"""Index over the MIR dump: types, functions, loops, liveness."""
import re


class Fn:
    __slots__ = ("id", "d", "path", "full", "blocks", "argc", "locals", "crate", "local", "rpo", "succ", "preds",
                 "live", "loops", "cyclic", "prog", "names", "dropflags", "span", "heads", "closure_")

    def __init__(self, prog, i, d):
        self.prog = prog
        self.id = i
        self.d = d
        self.path = d["path"]
        self.full = d["full"]
        self.blocks = d["blocks"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.crate = d["crate"]
        self.local = d["crate"] == "retrocompressor"
        self.names = {l: n for l, n in d["names"]}
        self.span = d["span"]
        self.closure_ = bool(d.get("closure"))
        self._cfg()
        self._live()
        self._dropflags()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [self._succ(b["t"]) for b in self.blocks]
        self.preds = [[] for _ in range(n)]
        seen, order = set(), []
        # iterative DFS postorder; later successors first so that loop bodies come before exits
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        self.heads = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    self.heads.add(s)
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                stack.pop()
                onstack.discard(b)
                order.append(b)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in self.succ[b]:
                self.preds[s].append(b)
        self.cyclic = bool(self.heads)

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = []
            for _, b in t[2]:
                if b not in r:
                    r.append(b)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    @staticmethod
    def _opuse(o, use):
        if o[0] in ("cp", "mv"):
            Fn._plcuse(o[1], use)

    @staticmethod
    def _plcuse(p, use):
        use.add(p[0])
        for e in p[1]:
            if isinstance(e, list) and e[0] == "i":
                use.add(e[1])

    def _rvuse(self, r, use):
        k = r[0]
        if k in ("use", "rep"):
            self._opuse(r[1], use)
        elif k == "ref" or k == "disc":
            self._plcuse(r[1], use)
        elif k == "cast":
            self._opuse(r[2], use)
        elif k == "bin":
            self._opuse(r[2], use)
            self._opuse(r[3], use)
        elif k == "un":
            self._opuse(r[2], use)
        elif k == "agg":
            for o in r[2]:
                self._opuse(o, use)

    def _live(self):
        n = len(self.blocks)
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]

        def use(b, us):
            gen[b] |= (us - kill[b])

        def define(b, p):
            if not p[1]:
                kill[b].add(p[0])
            else:
                us = set()
                self._plcuse(p, us)
                # partial assignment: the base keeps its other parts
                use(b, us)
        for b in self.rpo:
            blk = self.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    us = set()
                    self._rvuse(s[2], us)
                    use(b, us)
                    define(b, s[1])
                elif s[0] == "sd":
                    define(b, s[1])
                elif s[0] == "dead":
                    kill[b].add(s[1])
            t = blk["t"]
            us = set()
            if t[0] == "switch":
                self._opuse(t[1], us)
                use(b, us)
            elif t[0] == "drop":
                self._plcuse(t[1], us)
                use(b, us)
            elif t[0] == "call":
                for o in t[2]:
                    self._opuse(o, us)
                if isinstance(t[1], list):
                    self._opuse(t[1][1], us)
                use(b, us)
                define(b, t[3])
            elif t[0] == "assert":
                self._opuse(t[1], us)
                for o in t[4]:
                    self._opuse(o, us)
                use(b, us)
            elif t[0] == "ret":
                use(b, {0})
        live = [set() for _ in range(n)]
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        ch = True
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = gen[b] | (out - kill[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live

    def _dropflags(self):
        """unnamed bool locals that are only assigned constants and only switched on"""
        cand = {i for i, t in enumerate(self.locals)
                if i > self.argc and i not in self.names and self.prog.ty(t).get("k") == "bool"}
        for b in self.rpo:
            blk = self.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    us = set()
                    self._rvuse(s[2], us)
                    cand -= us
                    if s[1][0] in cand and not (s[2][0] == "use" and s[2][1][0] == "k"):
                        cand.discard(s[1][0])
            t = blk["t"]
            if t[0] == "call":
                us = set()
                for o in t[2]:
                    self._opuse(o, us)
                cand -= us
                cand.discard(t[3][0])
            if t[0] == "assert":
                us = set()
                self._opuse(t[1], us)
                cand -= us
        self.dropflags = cand


class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.crate = d["crate"]
        self.fns = [None] * len(d["fns"])

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {}

    def tystr(self, i):
        return self.ty(i).get("s", "?")

    def fn(self, i):
        if self.fns[i] is None:
            self.fns[i] = Fn(self, i, self.d["fns"][i])
        return self.fns[i]

    def find(self, path):
        """instances of the function with this path"""
        return [i for i, f in enumerate(self.d["fns"]) if f["path"] == path]

    def all(self):
        return [self.fn(i) for i in range(len(self.fns))]

    def item(self, path):
        for it in self.d["items"]:
            if it["path"] == path:
                return it
        return None
