"""C23: buffers are large enough for what is put into them and read from them."""
import common
from c27 import Progress, MEMW

# bytes written (w) or read (r) through an argument: (argument, kind, size as (argument, factor)) or None for a text with its terminator
ACCESS = {"memcpy": [(0, "w", (2, 1)), (1, "r", (2, 1))], "memmove": [(0, "w", (2, 1)), (1, "r", (2, 1))], "memset": [(0, "w", (2, 1))],
          "u32_cpy": [(0, "w", (2, 4)), (1, "r", (2, 4))], "u32_move": [(0, "w", (2, 4)), (1, "r", (2, 4))], "u32_set": [(0, "w", (2, 4))],
          "strncpy": [(0, "w", (2, 1))], "snprintf": [(0, "w", (1, 1))], "vsnprintf": [(0, "w", (1, 1))], "u32_vsnprintf": [(0, "w", (1, 4))], "u32_snprintf": [(0, "w", (1, 4))], "fgets": [(0, "w", (1, 1))],
          "pcre2_get_error_message_32": [(1, "w", (2, 4))]}
TEXTS = {"strcpy": ("strlen", 1), "u32_strcpy": ("u32_strlen", 4)}
ALLOC = {"malloc": lambda a: (a[0],), "calloc": lambda a: (a[0], a[1]), "realloc": lambda a: (a[1],)}


def contains(k, x):
    return k == x or isinstance(k, (tuple, frozenset)) and any(contains(y, x) for y in k if isinstance(y, (tuple, frozenset)))


def plus(a, b, k=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0 and x != 1:
            del r[x]
    return r


def times(a, k):
    return None if a is None else {x: c * k for x, c in a.items() if c * k or x == 1}


def const(a):
    return a.get(1, 0) if a is not None and all(x == 1 or c == 0 for x, c in a.items()) else None


class Sizes(Progress):
    def __init__(self, m, rep):
        Progress.__init__(self, m, rep)
        self.rep = rep
        self._ret = {}
        self._acc = {}
        self._loops = {}
        self._given = {}
        self._behind = {}
        self._ver = {}
        self._names = {}

    # ------------------------------------------------ values as sums
    def lin(self, f, o, depth=0):
        """sum of constants and named quantities"""
        if o[0] == "c":
            v = o[1]
            return {1: v - (1 << 64) if v >= 1 << 63 else v}
        if o[0] == "a":
            return {1: 0, o: 1}
        if o[0] != "i" or depth > 12:
            return None
        I = f.ins[o[1]]
        if I.op in ("sext", "zext", "trunc", "freeze"):
            J = f.ins[I.ops[0][1]] if I.ops[0][0] == "i" else None
            if J is not None and J.op == "icmp":
                return {1: 0, o: 1}
            return self.lin(f, I.ops[0], depth + 1)
        if I.op in ("add", "sub"):
            return plus(self.lin(f, I.ops[0], depth + 1), self.lin(f, I.ops[1], depth + 1), 1 if I.op == "add" else -1)
        if I.op == "mul":
            a, b = self.lin(f, I.ops[0], depth + 1), self.lin(f, I.ops[1], depth + 1)
            if const(b) is not None:
                return times(a, const(b))
            if const(a) is not None:
                return times(b, const(a))
            return {1: 0, o: 1}
        if I.op == "shl" and I.ops[1][0] == "c":
            return times(self.lin(f, I.ops[0], depth + 1), 1 << I.ops[1][1])
        if I.op == "load":
            k = self.name(f, I)
            return {1: 0, k: 1}
        if I.op == "call" and I.callee in ("strlen", "u32_strlen"):
            return {1: 0, ("len", self.vname(f, I.ops[0])): 1}
        return {1: 0, o: 1}

    def vname(self, f, o):
        if o[0] == "i" and f.ins[o[1]].op == "load":
            return self.name(f, f.ins[o[1]])
        return o

    def name(self, f, I):
        """a load by what it loads and by what has last changed that"""
        kk = (f.name, I.id)
        if kk not in self._names:
            self._names[kk] = ("i", I.id)
            k = self.place(f, I.ops[0])
            lo = self.spot(f, I.ops[0])
            v = self.version(f, I, k, lo) if lo is not None and lo[0] != "alloca" else None
            self._names[kk] = ("ld", k, v) if v is not None else ("i", I.id)
        return self._names[kk]

    def place(self, f, p, depth=0):
        """an address, so that equal ones are the same"""
        if p[0] != "i" or depth > 12:
            return p
        I = f.ins[p[1]]
        if I.op == "getelementptr":
            off = self.gepoff(f, I)
            return ("+", self.place(f, I.ops[0], depth + 1), frozenset((x, c) for x, c in off.items() if c)) if off is not None else p
        if I.op == "load":
            return self.name(f, I)
        return p

    def spot(self, f, addr):
        """like loc, also for what a parameter refers to"""
        lo = self.loc(f, addr)
        if lo is None:
            q = addr
            while q[0] == "i" and f.ins[q[1]].op == "getelementptr":
                q = f.ins[q[1]].ops[0]
            if q[0] == "a":
                return ("arg", q[1])
        return lo

    def clobbers(self, f, J, addr, k, lo):
        if J.op == "store":
            return self.spot(f, J.ops[1]) == lo and not self.other(f, J.ops[1], addr)
        if J.op == "call" and lo[0] == "arg":
            return J.callee is None or any(self.root(f, o) == ("a", lo[1]) for o in J.ops)
        if J.op == "call":
            return J.callee in self.m.defined and lo in self.changes(f, J) or J.callee is None and lo[0] == "g"
        return J.op != "load" and contains(k, ("i", J.id))

    def version(self, f, I, k, lo):
        """after which instruction what I loads has not changed; ways which join: the block where they do, the beginning: E"""
        kk = (f.name, k, lo)
        if kk not in self._ver:
            last = {}
            for b in f.blocks:
                for J in b.ins:
                    if self.clobbers(f, J, I.ops[0], k, lo):
                        last[b.id] = J.id
            at = {f.entry.id: "E"}
            ch = True
            while ch:
                ch = False
                for b in f.blocks:
                    if b is f.entry:
                        continue
                    vs = {last.get(p.id, at.get(p.id)) for p in b.pred} - {None}
                    v = at.get(b.id)
                    n = v if v == ("phi", b.id) else vs.pop() if len(vs) == 1 else ("phi", b.id) if vs else None
                    if n != v:
                        at[b.id] = n
                        ch = True
            self._ver[kk] = at
        v = self._ver[kk].get(I.blk.id)
        for J in I.blk.ins[:I.idx]:
            if self.clobbers(f, J, I.ops[0], k, lo):
                v = J.id
        return v

    # ------------------------------------------------ counters
    def counter(self, f, o):
        """(header, start, +1 or -1) of a loop counter"""
        I = f.ins[o[1]]
        if I.op != "phi":
            return None
        for h, body, latches in self.loopsof(f):
            if I.blk is h:
                step = start = None
                for b, x in I.ops:
                    if b in latches:
                        J = f.ins[x[1]] if x[0] == "i" else None
                        if J is None or J.op not in ("add", "sub") or J.ops[0] != o or J.ops[1][0] != "c":
                            return None
                        k = J.ops[1][1]
                        k = k - (1 << J.ops[1][2]) if k >= 1 << (J.ops[1][2] - 1) else k
                        k = k if J.op == "add" else -k
                        if step not in (None, k):
                            return None
                        step = k
                    else:
                        if start is not None and start != x:
                            return None
                        start = x
                return (h, body, start, step) if step in (1, -1) and start is not None else None
        return None

    def loopsof(self, f):
        if f.name not in self._loops:
            self._loops[f.name] = f.loops()
        return self._loops[f.name]

    def limits(self, f, o, blk, up):
        """limits for a loop counter which hold in a block: (sums, values it does not have), None if conditions relate it to something else"""
        h, body, start, step = self.counter(f, o)
        r, eqs = [], []
        for (p, a, b), v in self.L.entryfacts(f, blk).items():
            if o in (a, b):
                x = self.named(f, b if a == o else a)
                if p == "eq":
                    if v:
                        return None
                    eqs.append(x)
                elif p in ("slt", "ult", "sle", "ule"):
                    upper = (a == o) == bool(v)
                    strict = (p in ("slt", "ult")) == bool(v)
                    if upper == up:
                        r.append(plus(x, {1: (-1 if up else 1) * strict}))
                else:
                    return None
            elif self.mixed(f, a, o, body) or self.mixed(f, b, o, body):
                return None
        return (r, eqs) if None not in r and None not in eqs else None

    def mixed(self, f, x, o, body, depth=0):
        """a quantity depends on the counter or on something else which changes from iteration to iteration"""
        if x[0] != "i" or depth > 8:
            return False
        I = f.ins[x[1]]
        if I.op == "phi":
            return x == o and depth > 0 or x != o and I.blk.id in body
        if I.op in ("load", "call", "alloca", "getelementptr"):
            return False
        return any(self.mixed(f, y, o, body, depth + 1) for y in I.ops)

    def extreme(self, f, o, blk, up):
        """greatest or least value of a loop counter in a block as a sum, None if not known"""
        c = self.counter(f, o)
        if c is None or blk.id not in c[1]:
            return None
        l = self.limits(f, o, blk, up)
        if l is None:
            return None
        r, eqs = l
        if (c[3] == 1) != up:
            r = r + [self.lin(f, c[2])]
        if not r or r[0] is None:
            return None
        x = r[0]
        for y in r[1:]:
            d = const(plus(y, x, -1))
            if d is None:
                return None
            if (d < 0) == up:
                x = y
        for e in eqs:
            d = const(plus(x, e, -1))
            if d == 0:
                x = plus(x, {1: -1 if up else 1})
            elif d is None:
                return None
        return x

    def most(self, f, o, blk):
        return self.extreme(f, o, blk, True)

    def least(self, f, o, blk):
        return self.extreme(f, o, blk, False)

    def named(self, f, b):
        """sum for an operand of a condition"""
        if b[0] == "*":
            ns = {self.name(f, i) for i in f.all_ins() if i.op == "load" and self.L.key(f, i.ops[0]) == b[1]}
            return {1: 0, ns.pop(): 1} if len(ns) == 1 else None
        return self.lin(f, b)

    # ------------------------------------------------ pointers
    def where(self, f, p, at, depth=0):
        """(object, offset) a pointer refers to; object: ("new", instruction), ("var", size, name)"""
        if depth > 10:
            return None
        if p[0] == "g":
            g = self.m.globals.get(p[1]) or {}
            return (("var", g.get("size"), p[1]), {1: 0}) if g.get("size") else None
        if p[0] == "gep":
            r = self.where(f, p[1], at, depth + 1)
            return (r[0], plus(r[1], {1: p[3]})) if r and isinstance(p[3], int) else None
        if p[0] == "a":
            s = self.given(f, p[1])
            return (("var", s, "what is passed as argument %d" % (p[1] + 1)), {1: 0}) if s else None
        if p[0] != "i":
            return None
        I = f.ins[p[1]]
        if I.op == "alloca":
            return (("var", I.d.get("asz"), "a local variable"), {1: 0}) if I.d.get("asz") else None
        if I.op in ("bitcast", "freeze"):
            return self.where(f, I.ops[0], at, depth + 1)
        if I.op == "getelementptr":
            a = self.member(f, I)
            if a is not None:
                return a
            r = self.where(f, I.ops[0], at, depth + 1)
            if r is None:
                return None
            off = self.gepoff(f, I)
            return (r[0], plus(r[1], off)) if off is not None else None
        if I.op == "call" and (I.callee in ALLOC or I.callee in self.m.defined and self.made(I.callee)):
            return ("new", I), {1: 0}
        if I.op == "load":
            v = self.reaching_store(f, I)
            if v is not None:
                return self.where(f, v, at, depth + 1)
            n = self.m.last_field(f, I.ops[0])
            b = self.behind(tuple(n)) if n else None
            return (b, {1: 0}) if b is not None else None
        return None

    def member(self, f, I):
        """an array which is part of a structure"""
        path = I.d.get("path", [])
        for k in reversed(range(len(path))):
            if path[k][0] == "f":
                st = self.m.structs.get(path[k][1])
                fl = st["fields"][path[k][2]] if st else None
                if fl is None or not fl["type"].startswith("["):
                    return None
                off = {1: 0}
                for s in path[k + 1:]:
                    off = plus(off, times(self.lin(f, tuple(s[1])), s[2]))
                return (("var", fl["size"], "the array " + fl["name"]), off) if off is not None else None
        return None

    def given(self, f, k):
        """size of the variable passed as an argument, if all callers pass one"""
        kk = (f.name, k)
        if kk not in self._given:
            self._given[kk] = None
            szs = []
            for g in self.m.defined.values():
                for c in g.all_ins():
                    if any(o == ("g", f.name) for j, o in enumerate(c.ops)) and c.op != "call":
                        szs.append(None)
                    if c.op == "call":
                        if any(o == ("g", f.name) for o in c.ops):
                            szs.append(None)
                        if c.callee == f.name and k < len(c.ops):
                            w = self.where(g, c.ops[k], c)
                            szs.append(const(self.size(g, w[0])) if w and const(w[1]) == 0 else None)
            if szs and None not in szs:
                self._given[kk] = max(szs)
        return self._given[kk]

    def behind(self, n):
        """what a field of a structure refers to, if it is always something of the same size"""
        if n not in self._behind:
            self._behind[n] = None
            objs = []
            for g in self.m.defined.values():
                for i in g.all_ins():
                    if i.op == "store" and i.ops[0] != ("null",):
                        x = self.m.last_field(g, i.ops[1])
                        if x and tuple(x) == n:
                            w = self.where(g, i.ops[0], i)
                            objs.append((g, w[0]) if w and const(w[1]) == 0 else None)
            if objs and None not in objs:
                szs = [self.size(g, o) for g, o in objs]
                if None not in szs and all(const(x) is not None for x in szs):
                    self._behind[n] = ("var", max(map(const, szs)), "what %s refers to" % n[1])
                elif None not in szs:
                    cs = [c for x in szs for y, c in x.items() if y != 1 and c > 0]
                    if cs and all(any(c > 0 for y, c in x.items() if y != 1) for x in szs):
                        self._behind[n] = ("each", max(cs), "what %s refers to" % n[1])
        return self._behind[n]

    def gepoff(self, f, I):
        if isinstance(I.d.get("off"), int):
            return {1: I.d["off"]}
        r = {1: 0}
        for s in I.d.get("path", []):
            if s[0] == "f":
                st = self.m.structs.get(s[1])
                if not st:
                    return None
                r = plus(r, {1: st["fields"][s[2]]["off"]})
            else:
                x = s[1]
                x = tuple(x) if isinstance(x, list) else x
                r = plus(r, times(self.lin(f, x), s[2]))
                if r is None:
                    return None
        return r

    def reaching_store(self, f, I):
        """the one value which the load can yield, judging from the stores in the function"""
        k = self.place(f, I.ops[0])
        lo = self.spot(f, I.ops[0])
        v = self.version(f, I, k, lo) if lo is not None else None
        J = f.ins.get(v) if isinstance(v, int) and isinstance(f.ins, dict) else f.ins[v] if isinstance(v, int) else None
        return J.ops[0] if J is not None and J.op == "store" and self.place(f, J.ops[1]) == k else None

    def other(self, f, a, b):
        """certainly different objects: one of them made in this function"""
        ra, rb = self.root(f, a), self.root(f, b)
        fresh = lambda r: r[0] == "i" and f.ins[r[1]].op == "call" and (f.ins[r[1]].callee in ALLOC or self.makes(f.ins[r[1]].callee))
        return ra != rb and (fresh(ra) or fresh(rb))

    # ------------------------------------------------ sizes of objects
    def made(self, c):
        """size of what the function returns, as a sum over its arguments"""
        if c not in self._ret:
            self._ret[c] = None
            g = self.m.defined.get(c)
            if g is not None and g.ret == "ptr" and g.file not in ("parser.c", "lex.yy.c"):
                szs = []
                for i in g.all_ins():
                    if i.op == "ret":
                        for o in self.roots(g, i.ops[0], set()):
                            if o[0] == "null":
                                continue
                            if o[0] == "i" and g.ins[o[1]].op == "load":
                                v = self.reaching_store(g, g.ins[o[1]])
                                o = v if v is not None else o
                            if i.ops[0] != o and o[0] == "i" and g.ins[o[1]].op == "getelementptr":
                                szs.append(None)
                            s = self.size(g, ("new", g.ins[o[1]])) if o[0] == "i" and g.ins[o[1]].op == "call" else None
                            szs.append(s if s is not None and all(x == 1 or x[0] == "a" for x in s) else None)
                if szs and all(s == szs[0] for s in szs):
                    self._ret[c] = szs[0]
        return self._ret[c]

    def size(self, f, obj):
        if obj[0] == "var":
            return {1: obj[1]}
        if obj[0] == "each":
            return None
        I = obj[1]
        if I.callee in ALLOC:
            ls = [self.lin(f, o) for o in ALLOC[I.callee](I.ops)]
            if any(x is None for x in ls):
                return None
            if len(ls) == 2:
                if const(ls[1]) is not None:
                    return times(ls[0], const(ls[1]))
                if const(ls[0]) is not None:
                    return times(ls[1], const(ls[0]))
                return None
            return ls[0]
        s = self.made(I.callee) if I.callee in self.m.defined else None
        return self.subst(f, s, I.ops) if s is not None else None

    def growth(self, f, I):
        """(quotient, growth, number of elements after which it is repeated) of an allocation which is made larger every now and then"""
        s = self.size(f, ("new", I))
        if s is None:
            return
        have = s.get(1, 0)
        phis = []
        for x, c in s.items():
            J = f.ins[x[1]] if x != 1 and x[0] == "i" else None
            if J is not None and J.op == "select" and all(o[0] == "c" for o in J.ops[1:3]):
                have += c * min(J.ops[1][1], J.ops[2][1])
            elif x != 1:
                phis.append((x, c))
        if len(phis) != 1:
            return
        x, u = phis[0]
        if u <= 0 or x[0] != "i" or f.ins[x[1]].op != "phi":
            return
        for (p, a, b), v in self.L.entryfacts(f, I.blk).items():
            for o, z in ((a, b), (b, a)):
                if p == "eq" and v and z[0] == "c" and z[1] == 0 and o[0] == "i" and f.ins[o[1]].op in ("urem", "srem") and f.ins[o[1]].ops[1][0] == "c":
                    yield o, have // u, f.ins[o[1]].ops[1][1]

    def subst(self, f, s, ops):
        r = {1: s.get(1, 0)}
        for x, c in s.items():
            if x != 1:
                if x[0] != "a" or x[1] >= len(ops):
                    return None
                r = plus(r, times(self.lin(f, ops[x[1]]), c))
                if r is None:
                    return None
        return r

    # ------------------------------------------------ accesses
    def accesses(self, name):
        """accesses of a function through its arguments: [(argument, offset, bytes, kind)] as sums over its arguments"""
        if name not in self._acc:
            self._acc[name] = []
            g = self.m.defined.get(name)
            if g is not None and g.file not in ("lex.yy.c", "parser.c"):
                for b in self.certain(g):
                    for i in b.ins:
                        for p, n, kind in self.at(g, i):
                            off, q = {1: 0}, p
                            while q[0] == "i" and g.ins[q[1]].op == "getelementptr":
                                off = plus(off, self.gepoff(g, g.ins[q[1]]))
                                q = g.ins[q[1]].ops[0]
                            if q[0] == "a" and off is not None and n is not None and all(x == 1 or x[0] == "a" for x in list(off) + list(n)):
                                if (q[1], off, n, kind) not in self._acc[name]:
                                    self._acc[name].append((q[1], off, n, kind))
        return self._acc[name]

    def certain(self, g):
        """blocks which are executed in every call with arguments which are not NULL"""
        r, b = [], g.entry
        while b is not None and b not in r:
            r.append(b)
            t = b.term
            if len(b.succ) == 1:
                b = b.succ[0]
                continue
            c = g.ins[t.ops[0][1]] if t.op == "br" and t.ops and t.ops[0][0] == "i" else None
            if c is not None and c.op == "icmp" and ("null",) in c.ops and any(o[0] == "a" for o in c.ops):
                b = g.bmap[t.d["succ"][1 if c.d.get("pred") == "eq" else 0]]
                continue
            b = self.ipdom(g, b)
        return r

    def ipdom(self, g, b):
        """the first block through which all ways lead from b to the end"""
        ends = [x.id for x in g.blocks if not x.succ]
        cand = []
        for x in g.blocks:
            if x is b:
                continue
            seen, st = {b.id}, [b]
            while st:
                for s in st.pop().succ:
                    if s is not x and s.id not in seen:
                        seen.add(s.id)
                        st.append(s)
            if not any(e in seen for e in ends):
                cand.append(x)
        return max(cand, key=lambda x: sum(1 for y in cand if y.id in g.reach_from(x)), default=None) if cand else None

    def at(self, f, i):
        """(pointer, number of bytes, kind) of the accesses of an instruction"""
        if i.op == "load":
            return [(i.ops[0], {1: i.d.get("sz", 1)}, "r")]
        if i.op == "store":
            return [(i.ops[1], {1: i.d.get("sz", 1)}, "w")]
        if i.op != "call" or not i.callee:
            return []
        c = i.callee
        for n in ("memcpy", "memmove", "memset"):
            if c.startswith("llvm." + n):
                c = n
        r = []
        for k, kind, (a, n) in ACCESS.get(c, []) if c not in self.m.defined else []:
            if k < len(i.ops) and a < len(i.ops):
                r.append((i.ops[k], times(self.lin(f, i.ops[a]), n), kind))
        if c in TEXTS and c not in self.m.defined:
            fn, w = TEXTS[c]
            s = self.m.cstr(i.ops[1])
            n = {1: len(s) + 1} if s is not None else {1: w, ("len", self.vname(f, i.ops[1])): w}
            r.append((i.ops[0], n, "w"))
        if c in self.m.defined:
            for k, off, n, kind in self.accesses(c):
                if k < len(i.ops):
                    r.append((i.ops[k], plus(self.subst(f, off, i.ops), self.subst(f, n, i.ops)), kind))
        return r

    def bound(self, f, s, blk):
        """the greatest value of a sum, with counters at their last value"""
        for _ in range(4):
            for x, c in list(s.items()):
                if x != 1 and x[0] == "i" and c > 0:
                    hi = self.most(f, x, blk)
                    if hi is not None and x not in hi:
                        s = plus({y: d for y, d in s.items() if y != x}, times(hi, c))
                        s.setdefault(1, 0)
                        break
            else:
                return s
        return s

    def over(self, f, i, d, rest, size, nb, off):
        """the size is certainly exceeded"""
        k = d.get(1, 0)
        # sizes of allocations, numbers of elements and offsets are not negative
        if all(c < 0 and (x[0] == "len" or any(v.get(x, 0) > 0 for v in (size, nb, off))) for x, c in rest.items()):
            if k < 0:
                return True
            if k == 0 and rest:
                eqs = [y for (p, a, b), v in self.L.entryfacts(f, i.blk).items() if p == "eq" and v for y in (self.named(f, a), self.named(f, b)) if y]
                return not any(y.get(x) for y in eqs for x in rest)
            return False
        for v in (size, nb, off):
            q = {x: c for x, c in v.items() if x != 1 and c}
            if q and set(q) == set(rest):
                r = {rest[x] / c for x, c in q.items()}
                if len(r) == 1 and min(r) < 0 and v is size:
                    return True
                if len(r) == 1 and min(r) < 0 and k - min(r) * v.get(1, 0) < 0:
                    return True
        return False

    def lowest(self, f, s, blk):
        """the least value of a sum, with counters at their last value"""
        for _ in range(4):
            for x, c in list(s.items()):
                if x != 1 and x[0] == "i" and c > 0:
                    lo = self.least(f, x, blk)
                    if lo is not None and x not in lo:
                        s = plus({y: d for y, d in s.items() if y != x}, times(lo, c))
                        s.setdefault(1, 0)
                        break
            else:
                return s
        return s


def check(tree, rep):
    m = tree.module()
    Z = Sizes(m, rep)
    n = decided = 0
    news = set()
    objs = {}
    for f in m.defined.values():
        if f.file in ("lex.yy.c", "parser.c"):
            continue
        k = 0
        for i in f.all_ins():
            for p, nb, kind in Z.at(f, i):
                w = Z.where(f, p, i)
                if w is None or nb is None or w[1] is None:
                    continue
                n += 1
                k += 1
                size = Z.size(f, w[0])
                low = const(Z.lowest(f, w[1], i.blk))
                d = None
                if size is not None:
                    need = Z.bound(f, plus(w[1], nb), i.blk)
                    d = plus(size, need, -1)
                    rest = {x: c for x, c in d.items() if x != 1 and c}
                what = "the variable %s" % w[0][2] if w[0][0] == "var" and not w[0][2].startswith(("a ", "the ", "what ")) else w[0][2] if w[0][0] in ("var", "each") else "the memory from line %d" % w[0][1].line
                over = d is not None and Z.over(f, i, d, rest, size, nb, w[1])
                if d is None or rest and not over:
                    if low is None or low >= 0:
                        rep.unresolved("%s: %s %s" % (i.where(), "write to" if kind == "w" else "read from", what))
                else:
                    decided += 1
                    objs[w[0][0]] = objs.get(w[0][0], 0) + 1
                if w[0][0] == "new":
                    news.add((f.name, w[0][1].id))
                unit = w[0][1] if w[0][0] == "each" else max([c for x, c in size.items() if x != 1 and c > 0], default=0) if size is not None and const(size) is None else 0
                if unit > 1 and any(x != 1 and c > unit for x, c in w[1].items()) and not (w[0][0] == "new" and any(size.get(x) for x in w[1] if x != 1)):
                    rep.violation("%s-unit-%d" % (f.name, k), "%s: elements of %d bytes are accessed in %s, which has room for elements of %d bytes" % (i.where(), max(c for x, c in w[1].items() if x != 1), what, unit))
                vid = "%s-%s-%d" % (f.name, "write" if kind == "w" else "read", k)
                if low is not None and low < 0:
                    rep.violation(vid, "%s: %d bytes in front of %s are %s" % (i.where(), -low, what, "written" if kind == "w" else "read"))
                elif over:
                    rep.violation(vid, "%s: %s reaches %s bytes past the end of %s" % (i.where(), "a write" if kind == "w" else "a read", show({x: -c for x, c in d.items()}), what))
    steps = 0
    for f in m.defined.values():
        for i in f.all_ins():
            if i.op == "call" and i.callee in ALLOC and f.file not in ("lex.yy.c", "parser.c"):
                for o, have, want in Z.growth(f, i):
                    steps += 1
                    if have < want:
                        rep.violation("%s-growth" % f.name, "%s: room is made for %d more elements, but only every %d elements" % (i.where(), have, want))
    rep.need(n > 600, "only %d accesses" % n)
    rep.need(len(news) > 30, "only %d allocations" % len(news))
    rep.cov.update({"accesses": n, "decided": decided, "allocations": len(news), "accesses_to_allocated_memory": objs.get("new", 0), "accesses_to_variables_and_arrays": objs.get("var", 0),
                    "growing_allocations": steps, "explanation": "sizes of allocations, arrays and variables and the places which are accessed are sums of constants, parameters, fields, lengths of texts and loop counters; "
                    "an access must not lie beyond the end or before the beginning when loop counters have their last value; sums which cannot be compared are unresolved"})


def show(s):
    r = []
    for x, c in s.items():
        if x != 1 and c:
            r.append("%d times a length" % c)
    return " + ".join(r + [str(s.get(1, 0))])
