"""C22: debug logging does not change what the program does."""
from bx import need_fn
from effects import Effects, name_of
from sim import Sim, St, UNK, ZERO
from bx import BxHooks

GUARDS = ("is_debug_logging",)
LOG = ("log_debug", "log_debug_cont")


def ipdom(f):
    """immediate postdominators (None: end of function)"""
    END = -1
    ids = [b.id for b in f.blocks]
    succ = {b.id: [s.id for s in b.succ] or [END] for b in f.blocks}
    pd = {i: set(ids) | {END} for i in ids}
    pd[END] = {END}
    ch = True
    while ch:
        ch = False
        for i in reversed(ids):
            n = set.intersection(*[pd[s] for s in succ[i]]) | {i}
            if n != pd[i]:
                pd[i] = n
                ch = True
    res = {}
    for i in ids:
        c = pd[i] - {i}
        best = [x for x in c if all(y in pd[x] for y in c)]
        res[i] = best[0] if best else END
    return res


def region(f, start, stop):
    seen, w = set(), [start]
    while w:
        b = w.pop()
        if b.id in seen or b.id == stop:
            continue
        seen.add(b.id)
        w += b.succ
    return seen


def regions(f):
    """(branch instruction, region when logging, region when not, join block id)"""
    out = []
    pd = None
    for I in f.calls():
        if I.callee not in GUARDS:
            continue
        conds = [(u, u.d.get("pred")) for u in f.uses.get(("i", I.id), ()) if u.op == "icmp"]
        for c, pred in conds:
            for b in f.uses.get(("i", c.id), ()):
                if b.op != "br" or len(b.d["succ"]) != 2 or len(b.blk.succ) != 2:
                    out.append((I, None, None, None))
                    continue
                pd = pd or ipdom(f)
                j = pd[b.blk.id]
                s = [f.bmap[x] for x in b.d["succ"]]
                if pred == "eq":
                    s.reverse()
                out.append((b, region(f, s[0], j), region(f, s[1], j), j))
        if not conds:
            out.append((I, None, None, None))
    return out


def check(tree, rep):
    mod = tree.module()
    need_fn(mod, *GUARDS, *LOG)
    E = Effects(mod)
    nreg = nins = nphi = 0
    debugonly = {}
    for f in mod.defined.values():
        if f.name in GUARDS + LOG:
            continue
        rs = regions(f)
        allreg = set()
        for b, t, e, j in rs:
            allreg |= t or set()
        for b, on, off, j in rs:
            if on is None:
                rep.unresolved("%s: use of the result of a logging query" % b.where())
                continue
            nreg += 1
            for blks, other, what in ((on, off, "only when debug logging is on"), (off, on, "only when debug logging is off")):
                if j == -1 and b.blk.id in blks:
                    continue
                if blks is off and on and not (off - on):
                    continue
                own = blks - other
                for bid in sorted(own):
                    for I in f.bmap[bid].ins:
                        nins += 1
                        effect(mod, E, f, I, own, allreg, what, rep)
                        if I.op == "ret":
                            rep.violation("ret:%s" % f.name, "%s: the function returns %s" % (I.where(), what))
            # values leaving the regions
            if j is None or j == -1:
                continue
            for I in f.bmap[j].ins:
                if I.op != "phi":
                    continue
                nphi += 1
                vs = {}
                for p, o in I.ops:
                    if p in on & off:
                        vs.setdefault("on", set()).add(o)
                        vs.setdefault("off", set()).add(o)
                        continue
                    k = "on" if p in on - off else "off" if p in off - on else "direct" if p == b.blk.id else None
                    if k:
                        vs.setdefault("off" if k == "direct" and not off or k == "off" else "on", set()).add(o)
                if len(vs) == 2 and vs["on"] != vs["off"] and used_outside(f, I, allreg):
                    if any(o[0] == "undef" for o in vs["on"] | vs["off"]):
                        continue
                    rep.violation("value:%s:%s" % (f.name, f.var(("i", I.id)) or "?"), "%s: variable %s gets another value when debug logging is on" % (b.where(), f.var(("i", I.id)) or "(unnamed)"))
    # the logging functions themselves: quiet when off, standard error only
    nlog = 0
    for n in LOG:
        for k, w in sorted(E.of(n), key=repr):
            nlog += 1
            if k == "print" and w != ("stream", "stderr"):
                if w[0] == "stream" or w[0] == "g":
                    rep.violation("stream:" + n, "%s() (src/logging.c) writes to something other than the standard error stream" % n)
                else:
                    rep.unresolved("%s: stream" % n)
            elif k == "end":
                rep.violation("end:" + n, "%s() (src/logging.c) can end the program" % n)
            elif k == "write" and w[0] == "g":
                rep.violation("global:" + n, "%s() (src/logging.c) changes the global variable %s" % (n, w[1]))
            elif k == "free":
                rep.violation("free:" + n, "%s() (src/logging.c) releases memory of its caller" % n)
        for on in (0, 1):
            h = H(mod, on)
            s = Sim(mod, h, cap=60, budget=20000)
            s.run(n, [("u", ("arg", i)) for i in range(mod.defined[n].nargs)], St())
            nlog += 1
            if not on and h.said:
                rep.violation("quiet:" + n, "%s() (src/logging.c) prints although debug logging of the area is off" % n)
            if on and not h.said and not s.overrun:
                rep.violation("mute:" + n, "%s() (src/logging.c) never prints" % n)
    nlog += areas(tree, mod, rep)
    nbuf = buffers(mod, rep)
    rep.need(nreg > 5, "only %d blocks guarded by debug logging" % nreg)
    rep.cov.update(explanation="Every block controlled by a logging query (post-dominance region of the branch) is searched for effects beyond its own temporary memory: stores, calls (by transitive effect summary), returns, ends of the program, "
                               "values which flow out; the logging functions themselves print to stderr only, and only if their area is on.",
                   guarded_regions=nreg, instructions=nins, joining_values=nphi, logging_obligations=nlog, formatting_buffers=nbuf)
    rep.assumptions += ["expressions passed to logging calls outside guarded blocks are evaluated in either case, so they cannot make a difference"]


class B(BxHooks):
    alloc_ok = True

    def __init__(self, mod):
        self.mod = mod

    def call(self, sim, st, I, n, args, ctx):
        return None


def areas(tree, mod, rep):
    """off by default; after activation on for exactly the areas asked for"""
    need_fn(mod, "activate_debug_logging")
    num = tree.macroint("NUM_LOG_AREAS")
    if not num:
        rep.unresolved("number of log areas")
        return 0
    n = 0

    def fresh():
        st = St()
        for g, d in mod.globals.items():
            i = d.get("init")
            if i and not d.get("const") and d.get("size", 99) <= 8 and i[0] in ("c", "null", "zero"):
                st.mem[(("g", g), (0, ()))] = ("c", i[1]) if i[0] == "c" else ZERO
        return st

    def ask(st, a):
        s = Sim(mod, B(mod), cap=60, budget=20000)
        return {v for v, x in s.run("is_debug_logging", [("c", a)], st.copy())}
    for a in range(2, num + 2):
        n += 1
        r = ask(fresh(), a)
        if all(v[0] == "c" for v in r) and r != {ZERO}:
            rep.violation("default", "is_debug_logging() (src/logging.c): debug logging is on without having been asked for")
    for on in [(i,) for i in range(num)] + [tuple(range(num)), (0, num - 1)]:
        st = fresh()
        t = ("h", "areas", 0)
        for i in range(num):
            st.mem[(t, (4 * i, ()))] = ("c", 1 if i in on else 0)
        s = Sim(mod, B(mod), cap=60, budget=20000)
        for v, x in s.run("activate_debug_logging", [("p", t, (0, ()))], st):
            x.env = {}
            for a in range(2, num + 2):
                n += 1
                r = ask(x, a)
                if len(r) == 1 and list(r)[0][0] == "c" and (r != {ZERO}) != (a - 2 in on):
                    rep.violation("area", "is_debug_logging() (src/logging.c): area number %d is %s where the areas asked for are %s" % (a - 2, "on" if r != {ZERO} else "off", list(on)))
                elif not all(v2[0] == "c" for v2 in r):
                    rep.unresolved("state of area %d" % a)
    return n


class H(BxHooks):
    alloc_ok = True

    def __init__(self, mod, on):
        self.mod = mod
        self.on = on
        self.said = False

    def inline(self, sim, name):
        return False

    def call(self, sim, st, I, n, args, ctx):
        if n == "is_debug_logging":
            return [(("c", self.on), st)]
        if n in ("fprintf", "bx_fprintf", "vfprintf", "printf", "puts", "fputs", "vprintf", "fwrite"):
            self.said = True
            return [(UNK, st)]
        if n in self.mod.defined and self.on:
            E = Effects(self.mod)
            if any(k == "print" for k, w in E.of(n)):
                self.said = True
        return None


def used_outside(f, I, reg, seen=None):
    seen = seen or set()
    if I.id in seen:
        return False
    seen.add(I.id)
    for u in f.uses.get(("i", I.id), ()):
        if u.blk.id in reg:
            continue
        if u.op == "phi":
            if used_outside(f, u, reg, seen):
                return True
            continue
        if u.op == "call" and (u.callee in LOG or u.callee == "free"):
            continue
        return True
    return False


def effect(mod, E, f, I, own, allreg, what, rep):
    for k, w in E.ins(f, I):
        if k == "unknown":
            rep.unresolved("%s: call of %s" % (I.where(), w))
            continue
        if k == "end":
            rep.violation("end:%s:%s" % (f.name, w), "%s: the program ends %s" % (I.where(), what))
            continue
        if k == "print":
            if w == ("stream", "stderr"):
                if I.callee not in LOG and what.endswith("off"):
                    pass
            elif w == ("stream", "stdout") or w == ("g", "opt"):
                rep.violation("print:%s" % f.name, "%s: something is written to the output %s" % (I.where(), what))
            else:
                rep.unresolved("%s: stream" % I.where())
            continue
        d = None
        if w[0] == "g":
            d = "global variable " + w[1]
        elif w[0] == "arg":
            if k == "write" and all(b[0] == "fresh" or b[0] == "g" and mod.globals.get(b[1], {}).get("const") or b == ("scanner",) for b in actuals(mod, E, f, w[1])):
                continue     # temporary memory of the callers, or the text of a token the scanner is done with
            d = "memory of argument '%s'" % (f.var(("a", w[1])) or w[1])
        elif w[0] == "fresh":
            c = f.ins.get(w[1])
            if c is not None and c.blk.id not in own:
                d = "memory allocated before"
        elif w[0] == "alloca":
            if any(u.blk.id not in allreg and u.op in ("load", "call", "getelementptr") and not (u.callee or "").startswith("llvm.") for u in f.uses.get(("i", w[1]), ())) or \
                    any(u.op == "ret" for u in f.uses.get(("i", w[1]), ())):
                d = "variable '%s'" % (f.var(("i", w[1])) or "?")
        if d and not (k == "write" and w[0] == "g" and mod.globals.get(w[1], {}).get("const")):
            rep.violation("%s:%s:%s" % (k, f.name, d), "%s: %s is %s %s" % (I.where(), d, "changed" if k == "write" else "released", what))


def actuals(mod, E, f, k, depth=0):
    """bases of argument k over all callers of a file-local function"""
    if f.name == "yylex":
        return {("scanner",)}
    if not f.local or depth > 3:
        return {("arg", k)}
    out = set()
    for g in mod.defined.values():
        for I in g.calls(f.name):
            if k < len(I.ops):
                for b in E.base(g, I.ops[k]):
                    out |= actuals(mod, E, g, b[1], depth + 1) if b[0] == "arg" else {b}
    return out or {("arg", k)}


def buffers(mod, rep):
    """messages of any length: no unbounded formatting into a buffer of fixed size"""
    n = 0
    for name in LOG + tuple(c for l in LOG for c in mod.cg.get(l, ()) if c in mod.defined):
        f = mod.defined[name]
        for I in f.calls():
            if I.callee in ("vsprintf", "sprintf", "strcpy", "strcat", "vsnprintf", "snprintf"):
                n += 1
            if I.callee in ("vsprintf", "sprintf"):
                for b in Effects(mod).base(f, I.ops[0]):
                    if b[0] == "alloca" or b[0] == "fresh" and f.ins[b[1]].callee in ("malloc", "calloc") and all(o[0] == "c" for o in f.ins[b[1]].ops):
                        rep.violation("buffer:" + name, "%s: a message of any length is formatted into a buffer of fixed size" % I.where())
    return n
