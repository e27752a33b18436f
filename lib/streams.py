"""All places which print, and the streams they print to (resolved through parameters at the call sites)."""
from effects import Effects, name_of, PRINT, STDOUT

FMT = {"fprintf": 1, "vfprintf": 1, "bx_fprintf": 1, "fputs": 0, "printf": 0, "vprintf": 0, "puts": 0}


class Site:
    def __init__(self, f, I, name, stream, fmt, args):
        self.f, self.I, self.name, self.stream, self.fmt, self.args = f, I, name, stream, fmt, args


class Streams:
    def __init__(self, mod):
        self.mod = mod
        self.E = Effects(mod)
        self.direct = []          # Site
        self.params = {}          # (function, k): sites printing to this parameter
        self.sites = []           # resolved: stream in err, out, file (opt.outfile), ?
        for f in mod.defined.values():
            for I in f.all_ins():
                if I.op != "call":
                    continue
                n = name_of(I)
                if n is None:
                    continue
                if n in STDOUT:
                    self.direct.append(Site(f, I, n, {"out"}, I.ops[0] if n != "putchar" else None, I.ops[1:]))
                elif n == "perror":
                    self.direct.append(Site(f, I, n, {"err"}, None, ()))
                elif n in PRINT and n != "fflush":
                    st = self.stream(f, I.ops[PRINT[n]])
                    k = FMT.get(n)
                    self.direct.append(Site(f, I, n, st, I.ops[k] if k is not None else None, I.ops[2:] if k == 1 else ()))
        todo = list(self.direct)
        seen = set()
        while todo:
            s = todo.pop()
            plain = {x for x in s.stream if not isinstance(x, tuple)}
            if plain:
                self.sites.append(Site(s.f, s.I, s.name, plain, s.fmt, s.args))
            for x in s.stream - plain:
                k = x[1]
                self.params.setdefault((s.f.name, k), []).append(s)
                for c in mod.callers(s.f.name):
                    if (c.fn.name, c.id, s.I.id, s.f.name) in seen or k >= len(c.ops):
                        continue
                    seen.add((c.fn.name, c.id, s.I.id, s.f.name))
                    todo.append(Site(c.fn, c, s.f.name, self.stream(c.fn, c.ops[k]), s.fmt, ()))

    def stream(self, f, r, seen=None):
        out = set()
        seen = set() if seen is None else seen
        if r in seen:
            return out
        seen.add(r)
        if r[0] == "a":
            return {("arg", r[1])}
        I = f.ins.get(r[1]) if r[0] == "i" else None
        if I is None:
            return {"?"} if r[0] not in ("c", "null") else set()
        if I.op == "load":
            g = self.mod.base(f, I.ops[0])[0]
            if g[0] == "g" and g[1] in ("stderr", "stdout"):
                return {"err" if g[1] == "stderr" else "out"}
            lf = self.mod.last_field(f, I.ops[0])
            if lf and lf[1] == "outfile":
                return {"file"}
            if g[0] == "i" and f.ins[g[1]].op == "alloca":
                for u in f.uses.get(("i", g[1]), ()):
                    if u.op == "store":
                        out |= self.stream(f, u.ops[0], seen)
                return out or {"?"}
            return {"?"}
        if I.op == "phi":
            for o in I.ops:
                out |= self.stream(f, o[1], seen)
            return out
        if I.op == "select":
            return self.stream(f, I.ops[1], seen) | self.stream(f, I.ops[2], seen)
        if I.op == "call" and I.callee in self.mod.defined:
            g = self.mod.defined[I.callee]
            for J in g.all_ins():
                if J.op == "ret" and J.ops:
                    for x in self.stream(g, J.ops[0], seen):
                        out |= self.stream(f, I.ops[x[1]], seen) if isinstance(x, tuple) else {x}
            return out or {"?"}
        return {"?"}
