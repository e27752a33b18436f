"""Error flow: which functions report failure through their result, and whether every call honours it."""
from sim import Sim, St, UNK, ZERO
from bx import BxHooks

OUTCALLS = ("fprintf", "bx_fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite")


class FH(BxHooks):
    alloc_ok = True
    keep = ()

    def __init__(self, mod, fn, conv):
        self.mod, self.fn, self.conv = mod, fn, conv
        self.exits = []

    def inline(self, sim, name):
        return False

    def call2(self, sim, st, I, name, args, ctx):
        if name in ("perror", "yyerror") or name in OUTCALLS and "('g', 'stderr')" in repr(args):
            st.q = st.q or ("diag", I.id)
            return [(UNK, st)]
        k = self.conv.get(name)
        if k and not st.q and name != self.fn:
            s2 = st.copy()
            s2.q = ("call", I.id)
            v = ("u", ("rc", I.id))
            if k == "int":
                cs = getattr(self, "vals", {}).get(name)
                if cs:
                    r = [(ZERO, st)]
                    for c in sorted(cs):
                        r.append((("c", c), s2.copy()))
                    return r
                s2.facts[("ne", v)] = frozenset((0,))
                return [(v, s2), (ZERO, st)]
            st.facts[("ne", v)] = frozenset((0,))
            return [(ZERO, s2), (v, st)]
        if k:
            v = ("u", ("rc", I.id))
            if k == "int":
                return [(ZERO, st)]
            st.facts[("ne", v)] = frozenset((0,))
            return [(v, st)]
        return None

    def exit(self, sim, st, ins, code, ctx):
        self.exits.append((code, st))


def sig(mod, f):
    r = f.ret
    return r


def cls(st, v):
    if v is None:
        return "void"
    if v[0] == "c":
        return "zero" if v[1] == 0 else "nonzero"
    if v[0] in ("p",):
        return "nonzero"
    if 0 in st.facts.get(("ne", v), ()):
        return "nonzero"
    if st.facts.get(("eq", v)) == ZERO:
        return "zero"
    e = st.facts.get(("eq", v))
    if e:
        return "nonzero"
    return "?"


def analyse(mod, name, conv):
    h = FH(mod, name, conv)
    s = Sim(mod, h, cap=6, budget=15000)
    rets = s.run(name, None, St())
    return s, [(rv, st) for rv, st in rets], h.exits


GEN = ("yy",)


def conventions(mod):
    """{function: ('int', failing constants) | ('ptr', )}: functions which report a failure after a diagnostic, or pass such a failure on"""
    conv, vals = {}, {}
    cache = {}
    todo = [n for n, f in mod.defined.items() if not n.startswith(GEN) and n != "main" and f.ret in ("i32", "ptr")]
    for rnd in range(8):
        changed = False
        for n in todo:
            f = mod.defined[n]
            callees = frozenset(c for c in mod.cg.get(n, ()) if c in conv)
            if cache.get(n) == callees:
                continue
            cache[n] = callees
            if not callees and not any(I.op == "call" and (I.callee in ("perror", "yyerror") or I.callee is None or I.callee in OUTCALLS) for b in f.blocks for I in b.ins):
                continue
            s, r, x = analyse(mod, n, conv)
            d = [(cls(st, rv), rv) for rv, st in r if st.q]
            o = [cls(st, rv) for rv, st in r if not st.q]
            if f.ret == "i32":
                k = "int" if any(c == "nonzero" for c, _ in d) and "nonzero" not in o and "zero" in o else None
            else:
                k = "ptr" if any(c == "zero" for c, _ in d) and ("nonzero" in o or "?" in o) else None
            if k:
                vals[n] = {rv[1] for c, rv in d if c == "nonzero" and rv[0] == "c"} if all(rv[0] == "c" for c, rv in d if c == "nonzero") else set()
            if conv.get(n) != k:
                changed = True
                if k:
                    conv[n] = k
                else:
                    conv.pop(n, None)
        if not changed:
            break
    return conv, vals


def failflow(mod, rep):
    conv, vals = conventions(mod)
    ints = {n: "int" for n, k in conv.items() if k == "int"}
    ncall = nok = tolerated = 0
    skipped = []
    for n, f in mod.defined.items():
        sites = [I for b in f.blocks for I in b.ins if I.op == "call" and I.callee in ints and I.callee != n]
        if not sites or n.startswith(GEN):
            continue
        ncall += len(sites)
        h = FH(mod, n, ints)
        h.vals = vals
        s = Sim(mod, h, cap=8, budget=25000)
        rets = s.run(n, None, St())
        kind = "int" if n in ints else conv.get(n)
        if n == "main":
            kind = "int"
        res = {}
        for rv, st in rets:
            if st.q and st.q[0] == "call":
                res.setdefault(st.q[1], set()).add(("ret", cls(st, rv)))
        for c, st in h.exits:
            if st.q and st.q[0] == "call":
                res.setdefault(st.q[1], set()).add(("exit", cls(st, c)))
        for I in sites:
            out = res.get(I.id, set())
            bad = [o for o in out if o == ("exit", "zero") or o[0] == "ret" and (kind == "int" and o[1] == "zero" or kind == "ptr" and o[1] == "nonzero")]
            lost = not f_uses(f, I)
            if (bad or lost) and ((n, I.callee) in TOLERATED or debug_only(mod, I.callee)):
                tolerated += 1
            elif (bad or lost) and not can_fail(mod, I, conv):
                nok += 1
            elif bad or lost:
                rep.violation("%s:%s:%s" % (n, I.callee, I.line and 0), "%s (%s): %s() reports a failure, but %s" % (
                    n, f.file, I.callee, "its result is dropped" if lost else "%s still reports success" % n), line=I.line)
            elif not out or any(o[1] in ("?", "void") for o in out):
                skipped.append("%s line %s: outcome of a failing %s() not determined" % (n, I.line, I.callee))
            else:
                nok += 1
    nptr = tested_pointers(mod, rep, conv, vals)
    rep.unresolved += skipped
    return {"failure_reporting_functions": len(conv), "int_convention": sorted(ints), "checked_calls": ncall, "tested_pointer_results": nptr, "calls_proved_propagating": nok, "tolerated_calls": tolerated}


def null_tested(mod, f, I):
    """is the result compared with NULL for another purpose than to guard its release?"""
    for b in f.blocks:
        for J in b.ins:
            if J.op != "icmp" or ("i", I.id) not in J.ops:
                continue
            for B in f.uses.get(("i", J.id), ()):
                if B.op != "br":
                    return True
                if not any(c.op == "call" and c.callee == "free" and c.ops and c.ops[0] == ("i", I.id) for x in f.bmap[b.id].succ for c in x.ins):
                    return True
    return False


def out_params(f, I):
    """does the call tell more about its failure through a variable whose address it is given?"""
    return any(o[0] == "i" and o[1] in f.ins and f.ins[o[1]].op == "alloca" for o in I.ops)


def tested_pointers(mod, rep, conv, vals):
    """a failing result (NULL) which a function notices must not end in success"""
    ptrs = {n for n, k in conv.items() if k == "ptr"}
    total = 0
    for n, f in mod.defined.items():
        kind = conv.get(n)
        if n.startswith(GEN) or kind is None:
            continue
        sites = [I for b in f.blocks for I in b.ins if I.op == "call" and I.callee in ptrs and I.callee != n and not out_params(f, I) and null_tested(mod, f, I)]
        if not sites:
            continue
        h = FH(mod, n, conv)
        h.vals = vals
        s = Sim(mod, h, cap=8, budget=25000)
        for rv, st in s.run(n, None, St()):
            if not st.q or st.q[0] != "call":
                continue
            for I in sites:
                if st.q[1] == I.id:
                    total += 1
                    c = cls(st, rv)
                    if kind == "int" and c == "zero" or kind == "ptr" and c == "nonzero":
                        rep.violation("%s:%s:null" % (n, I.callee), "%s (%s): %s() fails (NULL), which is noticed, but %s still reports success" % (n, f.file, I.callee, n), line=I.line)
    return total


# recoveries the program documents: a bad tag list in a config file is reported and otherwise ignored
TOLERATED = {("action_record_keyword", "tag_record")}


def debug_only(mod, name):
    """selection of debug areas (option -x debug): outside what users rely on"""
    for b in mod.defined[name].blocks:
        for I in b.ins:
            if I.op == "call":
                for o in I.ops:
                    t = mod.cstr(o) if o[0] in ("g", "gep") else None
                    if t and "debug area" in t:
                        return True
    return False


def can_fail(mod, I, conv):
    """can this call fail at all, given its constant arguments?"""
    cs = [("c", a[1]) if a[0] == "c" else ZERO if a[0] == "null" else ("u", ("argn", i)) for i, a in enumerate(I.ops)]
    h = FH(mod, I.callee, {k: v for k, v in conv.items() if v == "int"})
    s = Sim(mod, h, cap=8, budget=25000)
    return any(st.q or s.overrun for rv, st in s.run(I.callee, cs, St()))


def f_uses(f, I):
    return bool(f.uses.get(("i", I.id)))
