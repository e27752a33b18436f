"""What the checks know about the program's shape: header-declared anchors, default interpretation hooks, record layouts."""
from sim import Sim, St, Hooks, UNK, ZERO, NOOFF, DFLT
from common import Broken

DEBUG_FNS = {"log_debug", "log_debug_cont"}
DEBUG_Q = {"is_debug_logging", "is_debug_activated"}


def fields(mod, sname):
    """{field: (offset, size)} of a struct"""
    for k in ("struct." + sname, sname, "struct._" + sname):
        if k in mod.structs:
            return {f["name"]: (f["off"], f["size"]) for f in mod.structs[k]["fields"]}
    raise Broken("struct %s not found" % sname)


def need_fn(mod, *names):
    for n in names:
        if n not in mod.defined:
            raise Broken("function %s not found" % n)


def enumval(mod, name):
    for e in mod.enums.values():
        for a, b in e:
            if a == name:
                return b
    return None


class BxHooks(Hooks):
    """debug output is switched off (assumption recorded with every check that uses it)"""
    noinline = ()

    def inline(self, sim, name):
        return name not in self.noinline

    def call(self, sim, st, ins, name, args, ctx):
        if name in DEBUG_FNS:
            return [(UNK, st)]
        if name in DEBUG_Q:
            return [(ZERO, st)]
        return self.call2(sim, st, ins, name, args, ctx)

    def call2(self, sim, st, ins, name, args, ctx):
        return None


def cell(st, base, off):
    """content of an abstract memory cell, the initial value if it was never touched"""
    v = st.mem.get((base, (off, ())))
    if v is not None:
        return v
    d = st.mem.get((base, DFLT))
    if d is not None:
        if d[0] == "copyof":
            return ("u", ("ld", (d[1], (off + d[2], ()))))
        return d
    return ("u", ("ld", (base, (off, ()))))


def touched(st, base):
    """constant offsets of an object which have been read or written"""
    return sorted(o[0] for (b, o) in st.mem if b == base and o != DFLT and not o[1])


def facteq(st, v):
    """constant an opaque value is known to equal on this path"""
    if v[0] == "c":
        return v[1]
    f = st.facts.get(("eq", v))
    return f[1] if f and f[0] == "c" else None


def strip(v):
    """ignore width changes"""
    while v[0] == "e" and v[1] == "trunc":
        v = v[2]
    return v


def isld(v):
    """(base, const offset) if v is the initial content of a memory cell"""
    if v[0] == "u" and isinstance(v[1], tuple) and v[1][0] == "ld" and not v[1][1][1][1]:
        return v[1][1][0], v[1][1][1][0]
    return None
