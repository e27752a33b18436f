"""C24: nothing is used before it has been set."""
from c23 import ACCESS, TEXTS, Sizes, const, contains, plus

NOWRITE = {"free", "strlen", "strcmp", "strncmp", "strcasecmp", "fputs", "puts", "printf", "fprintf", "strdup", "strchr", "strrchr", "strstr", "strspn", "strcspn", "u32_strlen", "u32_strcmp", "u32_strdup", "u32_strchr", "u32_cmp",
           "u32_strstr", "perror", "fclose", "atoi", "u32_strwidth", "u32_width"}
VA = {"vsnprintf", "vfprintf", "vprintf", "vsprintf", "u32_vsnprintf", "u8_vsnprintf", "ulc_vsnprintf", "u32_vasprintf", "vasprintf", "ulc_vasprintf", "ulc_vfprintf"}
ALL = -1


def bits(off, n):
    return ((1 << n) - 1) << off if n > 0 and 0 <= off < 1 << 18 else 0


class Init(Sizes):
    def __init__(self, m, rep):
        Sizes.__init__(self, m, rep)
        self._fills = {}
        self._reads = {}
        self._fl = None
        self._pure = {}

    # ------------------------------------------------ what functions set and read through their arguments
    def fills(self, name):
        """{argument: mask of bytes which may be set (ALL: anything)}"""
        if name in self._fills:
            return self._fills[name]
        self._fills[name] = {}
        g = self.m.defined[name]
        r = {}

        def add(p, n):
            off, q = {1: 0}, p
            while q[0] == "i" and g.ins[q[1]].op in ("getelementptr", "bitcast"):
                if g.ins[q[1]].op == "getelementptr":
                    x = self.gepoff(g, g.ins[q[1]])
                    off = plus(off, x)
                q = g.ins[q[1]].ops[0]
            for z in self.roots(g, q, set()):
                if z[0] == "a":
                    o, l = const(off) if off is not None and z == q else None, const(n) if n is not None else None
                    r[z[1]] = ALL if o is None or l is None or o < 0 else r.get(z[1], 0) | bits(o, l) if r.get(z[1], 0) != ALL else ALL

        for i in g.all_ins():
            if i.op == "store":
                add(i.ops[1], {1: i.d.get("sz", 1)})
            elif i.op == "call":
                for k, o in enumerate(i.ops):
                    w = self.callfill(i, k)
                    if w == ALL:
                        add(o, None)
                    elif w:
                        add(o, {1: w.bit_length()})
                for p, n, kind in self.at(g, i) if i.callee not in self.m.defined else []:
                    if kind == "w":
                        add(p, n)
        self._fills[name] = r
        return r

    def callfill(self, i, k):
        """mask of what a call sets of what argument k refers to, by functions not known to the access tables"""
        c = i.callee or ""
        if c in self.m.defined:
            return self.fills(c).get(k, 0)
        if c.startswith(("llvm.va_start", "llvm.va_copy")):
            return ALL if k == 0 else 0
        if k == len(i.ops) - 1 and c in VA:
            return 0
        if c.startswith("llvm.") or c in ACCESS or c in TEXTS or c in NOWRITE:
            return 0
        return ALL

    def fieldloads(self):
        """{(structure, field): functions which read it}, {…: functions which set it}"""
        if self._fl is None:
            rd, wr = {}, {}
            for g in self.m.defined.values():
                for i in g.all_ins():
                    if i.op in ("load", "store"):
                        x = self.m.last_field(g, i.ops[0] if i.op == "load" else i.ops[1])
                        if x:
                            (rd if i.op == "load" else wr).setdefault(tuple(x), set()).add(g.name)
                    elif i.op == "call":
                        for p, n, kind in self.at(g, i) if i.callee not in self.m.defined else []:
                            x = self.m.last_field(g, p)
                            if x and kind == "w":
                                wr.setdefault(tuple(x), set()).add(g.name)
            self._fl = rd, wr
        return self._fl

    # ------------------------------------------------ ways
    def way(self, f, start, goal, stop, fixed={}, hold=None):
        """whether there is a way from after an instruction (or the beginning) to another one without one for which stop() holds; conditions which contradict each other are not both taken.
        None: too many"""
        blk, idx = start
        todo = [(blk, idx, None, {}, {})]
        seen = set()
        n = 0
        while todo:
            b, idx, frm, env, facts = todo.pop()
            if frm is not None:
                new = {}
                for J in b.ins:
                    if J.op != "phi":
                        break
                    for p, x in J.ops:
                        if p == frm:
                            x = env.get(x, x)
                            if x[0] in ("c", "null", "undef") or J.t == "i1":
                                new[("i", J.id)] = x
                env = {k: v for k, v in env.items() if not (k[0] == "i" and f.ins[k[1]].blk is b)}
                env.update(new)
                if hold is not None and b is f.ins[hold[1]].blk and env.get(hold, ("",))[0] != "undef":
                    continue
            # what is computed again in this block is not known any more
            if frm is not None:
                facts = {k: v for k, v in facts.items() if not any(contains(k, ("i", J.id)) for J in b.ins)}
            k = (b.id, idx, frozenset(env.items()), frozenset(facts.items()))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > 3000:
                return None
            ended = False
            for J in b.ins[idx:]:
                if J is goal:
                    return True
                if stop(J):
                    ended = True
                    break
            if ended:
                continue
            for s in dict.fromkeys(b.succ):
                nf = facts
                x = self.condition(f, b, s, env)
                if x == "never":
                    continue
                if x:
                    (p, a, c), v = x
                    a, c = env.get(a, a), env.get(c, c)
                    t = self.truth(p, a, c)
                    if t is not None and t != v or fixed.get((p, a, c), v) != v:
                        continue
                    if t is None:
                        q = (p, a, c)
                        if facts.get(q, v) != v:
                            continue
                        nf = dict(facts)
                        nf[q] = v
                todo.append((s, 0, b.id, env, nf))
        return False

    def condition(self, f, b, s, env):
        """the comparison decided by going from b to s, never: not possible"""
        t = b.term
        if t.op != "br" or len(t.d["succ"]) != 2 or t.d["succ"][0] == t.d["succ"][1]:
            return None
        v = t.d["succ"][0] == s.id
        c = t.ops[0]
        for _ in range(8):
            c = env.get(c, c)
            if c[0] == "c":
                return None if bool(c[1] & 1) == v else "never"
            I = f.ins[c[1]] if c[0] == "i" else None
            if I is not None and I.op == "xor" and I.ops[1][0] == "c":
                c, v = I.ops[0], v != bool(I.ops[1][1] & 1)
            elif I is not None and I.op == "icmp" and I.ops[1][0] == "c" and I.ops[1][1] == 0 and I.d.get("pred") in ("ne", "eq") and I.ops[0][0] == "i" and f.ins[I.ops[0][1]].op == "zext" and f.ins[f.ins[I.ops[0][1]].ops[0][1]].t == "i1":
                c, v = f.ins[I.ops[0][1]].ops[0], v if I.d["pred"] == "ne" else not v
            elif I is not None and I.op == "icmp":
                n, neg = self.L.norm(f, I)
                return n, v != neg
            else:
                return None if c[0] != "i" else (("eq", c, ("c", 1, 1)), v)
        return None

    def truth(self, p, a, c):
        if a == c and p in ("eq", "sle", "ule"):
            return True
        if a[0] == "null" and c[0] == "null":
            return True if p == "eq" else None
        if a[0] != "c" or c[0] != "c":
            return None
        w = a[2] if len(a) > 2 else 64
        sg = lambda v: v - (1 << w) if v >= 1 << (w - 1) else v
        x, y = a[1] & ((1 << w) - 1), c[1] & ((1 << w) - 1)
        return {"eq": x == y, "ult": x < y, "ule": x <= y, "slt": sg(x) < sg(y), "sle": sg(x) <= sg(y)}.get(p)

    # ------------------------------------------------ variables without a value
    def undefs(self, f):
        """(phi, use) of variables used on a way on which they have not been set"""
        for J in f.all_ins():
            if J.op != "phi":
                continue
            for p, x in J.ops:
                if x[0] != "undef":
                    continue
                me = ("i", J.id)
                uses = []
                todo, seen = [me], set()
                while todo:
                    v = todo.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    for u in f.uses.get(v, []):
                        if u.op == "phi":
                            continue
                        if u.op in ("sext", "zext", "trunc", "freeze"):
                            todo.append(("i", u.id))
                        else:
                            uses.append(u)
                for u in uses:
                    w = self.way(f, (f.bmap[p], len(f.bmap[p].ins)), u, lambda I: False, hold=me)
                    yield J, u, w

    # ------------------------------------------------ objects
    def resolve(self, f, p, i):
        """(object, offset): ("local", alloca) or ("heap", malloc call)"""
        r = self.root(f, p)
        if r[0] == "i" and f.ins[r[1]].op == "alloca":
            off, q = {1: 0}, p
            while q != r:
                I = f.ins[q[1]]
                if I.op == "getelementptr":
                    off = plus(off, self.gepoff(f, I))
                q = I.ops[0]
            return ("local", r[1]), off
        w = self.where(f, p, i)
        if w is not None and w[0][0] == "new" and w[0][1].callee in ("malloc", "realloc"):
            return ("heap", w[0][1].id), w[1]
        return None

    def events(self, f):
        """{object: [(instruction, address, offset, bytes, kind)]}; kinds: r(ead), w(rite), fill (by a call), pass (to a call), out (stored somewhere), ret"""
        ev = {}
        for i in f.all_ins():
            if i.op in ("load", "store") or i.op == "call" and i.callee not in self.m.defined:
                for p, n, kind in self.at(f, i):
                    w = self.resolve(f, p, i)
                    if w:
                        ev.setdefault(w[0], []).append((i, p, w[1], n, "copy" if i.op == "call" and kind == "r" else kind))
            if i.op == "call" and not (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
                for k, o in enumerate(i.ops):
                    w = self.resolve(f, o, i) if o[0] == "i" and f.ins[o[1]].t == "ptr" else None
                    if w is None:
                        continue
                    mk = self.callfill(i, k)
                    if mk:
                        ev.setdefault(w[0], []).append((i, o, w[1], mk, "fill"))
                    if i.callee in self.m.defined:
                        ev.setdefault(w[0], []).append((i, o, w[1], k, "pass"))
                    elif i.callee in VA and k == len(i.ops) - 1:
                        ev.setdefault(w[0], []).append((i, o, w[1], {1: 4}, "r"))
                    elif i.callee == "free":
                        ev.setdefault(w[0], []).append((i, o, w[1], None, "free"))
            if i.op == "store" and i.ops[0][0] == "i" and f.ins[i.ops[0][1]].t == "ptr":
                w = self.resolve(f, i.ops[0], i)
                if w:
                    ev.setdefault(w[0], []).append((i, i.ops[0], w[1], None, "out"))
            if i.op == "ret" and i.ops:
                for b, o in self.returned(f, i):
                    w = self.resolve(f, o, i) if o[0] == "i" and f.ins[o[1]].t == "ptr" else None
                    if w:
                        ev.setdefault(w[0], []).append((b.term, o, w[1], None, "ret"))
        return ev

    def returned(self, f, i):
        """(block, value) which is returned"""
        o = i.ops[0]
        if o[0] == "i" and f.ins[o[1]].op == "phi":
            return [(f.bmap[b], x) for b, x in f.ins[o[1]].ops]
        return [(i.blk, o)]

    def loose(self, f, o):
        """a pointer to the object is kept where it is not followed"""
        todo, seen = [o], set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.uses.get(v, []):
                if u.op == "phi" and all(x.op == "ret" for x in f.uses.get(("i", u.id), [])):
                    continue
                if u.op in ("phi", "select", "ptrtoint"):
                    return True
                if u.op in ("getelementptr", "bitcast"):
                    todo.append(("i", u.id))
        return False

    def later(self, f, o):
        """something is put into the object by way of a pointer which may be another one as well"""
        todo, seen, ps = [o], set(), set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.uses.get(v, []):
                if u.op in ("phi", "select", "getelementptr", "bitcast"):
                    todo.append(("i", u.id))
                    if u.op in ("phi", "select"):
                        ps.add(("i", u.id))
                elif u.op == "ptrtoint":
                    return True
        for i in f.all_ins():
            for p, n, kind in self.at(f, i):
                if kind == "w" and self.root(f, p) in ps:
                    return True
            if i.op == "call":
                if any(self.root(f, x) in ps and self.callfill(i, k) for k, x in enumerate(i.ops)):
                    return True
        return False

    def structof(self, f, evs, size):
        """name of the structure of the given size which the object is"""
        for i, p, off, n, kind in evs:
            for st in self.m.base(f, p)[1]:
                if st[0] == "f" and self.m.structs.get(st[1], {}).get("size") == size:
                    return st[1]
        return None

    def readers(self, st, fl):
        return self.fieldloads()[0].get((st.split(".", 1)[-1], fl), set())

    def setters(self, st, fl):
        return self.fieldloads()[1].get((st.split(".", 1)[-1], fl), set())

    def pure(self, name, st, fl):
        """the function sets the member to something which does not depend on its value before"""
        kk = (name, st, fl)
        if kk not in self._pure:
            g = self.m.defined[name]
            x = (st.split(".", 1)[-1], fl)
            self._pure[kk] = True
            ss = [i for i in g.all_ins() if i.op == "store" and tuple(self.m.last_field(g, i.ops[1]) or ()) == x]
            if ss and not any(w for i in g.all_ins() if i.op == "call" and i.callee not in self.m.defined for p, n, w in self.at(g, i) if w == "w" and tuple(self.m.last_field(g, p) or ()) == x):
                self._pure[kk] = any(not self.uses_old(g, i.ops[0], x) for i in ss)
        return self._pure[kk]

    def uses_old(self, g, o, x):
        todo, seen = [o], set()
        while todo:
            v = todo.pop()
            if v in seen or v[0] != "i":
                continue
            seen.add(v)
            I = g.ins[v[1]]
            if I.op == "load":
                if tuple(self.m.last_field(g, I.ops[0]) or ()) == x:
                    return True
                continue
            todo += [y for _, y in I.ops] if I.op == "phi" else list(I.ops)
        return False

    def reads(self, name, k):
        """the function reads what argument k refers to and never sets it"""
        g = self.m.defined[name]
        if self.fills(name).get(k, 0):
            return False
        return any(i.op == "load" and i.ops[0] == ("a", k) for b in self.certain(g) for i in b.ins)

    def objects(self, f):
        """problems: (instruction, text) and counts"""
        for o, evs in self.events(f).items():
            I = f.ins[o[1]]
            if o[0] == "local":
                total = I.d.get("asz")
                start, base, E = (f.entry, 0), {1: 0}, total
            else:
                size = self.size(f, ("new", I))
                if size is None:
                    continue
                us = {c for x, c in size.items() if x != 1 and c}
                E = const(size) if not us else min(us) if len(us) == 1 and min(us) > 0 else None
                if not E:
                    continue
                if I.callee == "realloc" and not us:
                    continue
                start, base = (I.blk, I.idx + 1), plus(size, {1: -E})
            if o[0] == "heap":
                yield from self.never(f, I, E, evs)
                if E in (1, 4) and us and not self.later(f, ("i", o[1])):
                    yield from self.terminator(f, I, E, size, evs)
            if self.loose(f, ("i", o[1])) or not E or E > 1 << 18:
                self.stats["loose"] += 1
                continue
            self.stats["objects"] += 1
            st = self.structof(f, evs, E)

            def rel(off):
                return const(plus(off, base, -1)) if off is not None else None

            sets = {}
            for i, p, off, n, kind in evs:
                if kind in ("w", "fill"):
                    a = rel(off)
                    if kind == "fill":
                        mk = ALL if a is None or n == ALL else n << a if a >= 0 else 0
                    else:
                        c = const(n) if n is not None else None
                        mk = ALL if a is None or c is None else bits(a, c)
                    sets[i.id] = ALL if mk == ALL or sets.get(i.id) == ALL else sets.get(i.id, 0) | mk
            nonnull = self.notnull(f, o)
            freed = {i.id for i, p, off, n, kind in evs if kind == "free"}

            def open_(mask, goal):
                """a way to goal on which not all of mask is set"""
                return self.way(f, start, goal, lambda J: J.id in freed or J is I and o[0] == "heap" or J.id in sets and (sets[J.id] == ALL or mask is None and sets[J.id] or mask is not None and mask & ~sets[J.id] == 0), nonnull)

            done = set()
            for i, p, off, n, kind in evs:
                a = rel(off)
                if kind == "r":
                    self.stats["uses"] += 1
                    c = const(n)
                    mask = bits(a, c) if a is not None and a >= 0 else None
                    if mask == 0:
                        continue
                    if self.pieces(sets, mask) and open_(mask, i):
                        yield i, "%s is used before it has been set" % self.nameof(f, p, I)
                elif kind == "pass":
                    self.stats["uses"] += 1
                    if st and a == 0:
                        reach = None
                        for fl in self.m.structs[st]["fields"]:
                            mask = bits(fl["off"], fl["size"])
                            if sets.get(i.id) == ALL:
                                continue
                            if reach is None:
                                reach = self.m.reachable(i.callee)
                            if reach & self.readers(st, fl["name"]) and not any(self.pure(h, st, fl["name"]) for h in reach & self.setters(st, fl["name"])) and fl["name"] not in done and self.pieces(sets, mask) and open_(mask, i):
                                done.add(fl["name"])
                                yield i, "%s is called before the member %s has been set" % (i.callee, fl["name"])
                    elif not st and i.callee in self.m.defined and self.reads(i.callee, n) and open_(bits(a, 1) if a is not None and a >= 0 else None, i):
                        yield i, "%s is called with something which has not been set" % i.callee
                elif kind == "ret" and o[0] == "heap":
                    self.stats["handed_out"] += 1
                    if st is None:
                        if open_(None, i) and not self.filled(f, sets, I):
                            yield I, "nothing is put into what is allocated here on some way"
                        continue
                    for fl in self.m.structs[st]["fields"]:
                        mask = bits(fl["off"], fl["size"])
                        if fl["name"] not in done and self.readers(st, fl["name"]) and self.pieces(sets, mask) and open_(mask, i):
                            done.add(fl["name"])
                            yield I, "the member %s of what is allocated here is never set on some way" % fl["name"]
            if st is None and (o[0] == "local" or const(size) is not None) and sets and all(k != ALL for k in sets.values()):
                u = 0
                for k in sets.values():
                    u |= k
                full = bits(0, E)
                if u != full and any(kind == "r" and rel(off) is None for i, p, off, n, kind in evs):
                    yield I, "only a part of what is declared or allocated here is ever set"

    def filled(self, f, sets, I):
        """a loop puts something into each element"""
        for h, body, latches in self.loopsof(f):
            for b in body:
                if any(x.id in sets for x in f.bmap[b].ins) and all(b in f.dom[l] for l in latches) and (I.blk.id not in body or h.id not in f.dom[I.blk.id]):
                    return True
        return False

    def terminator(self, f, I, E, size, evs):
        """the last element of a text is set"""
        self.stats["texts"] += 1
        any_ = False
        for u in f.all_ins():
            acc = self.at(f, u)
            for p, n, kind in acc:
                w = self.where(f, p, u)
                if w is None or w[0][0:2] != ("new", I) or kind != "w":
                    continue
                if w[1] is None or n is None:
                    return
                # functions which put an end to the text themselves
                if u.op == "call" and (u.callee in TEXTS or "printf" in (u.callee or "") or u.callee == "fgets" or n.get(1, 0) > 0 and u.callee not in self.m.defined):
                    return
                any_ = True
                # the last element may be what zero is stored in, wherever that is
                if u.op == "store" and self.zero(f, u.ops[0]) or u.op == "call" and u.callee in self.m.defined and any(self.zero(f, o) for o in u.ops[1:]):
                    return
                end = plus(size, self.bound(f, plus(w[1], n), u.blk), -1)
                if end is None or end.get(1, 0) <= 0 or any(c < 0 for c in end.values()):
                    return
            if u.op == "call" and not any(k == "w" for _, _, k in acc):
                for k, o in enumerate(u.ops):
                    w = self.where(f, o, u) if o[0] == "i" and f.ins[o[1]].t == "ptr" else None
                    if w and w[0][0:2] == ("new", I) and self.callfill(u, k):
                        return
        if any_:
            yield I, "the last %d bytes of the text which is allocated here, for its end, are never set" % E

    def zero(self, f, o):
        if o[0] == "i" and f.ins[o[1]].op == "load" and f.ins[o[1]].ops[0][0] == "g":
            return self.m.effconst(f.ins[o[1]].ops[0][1]) == 0
        return o[0] == "c" and o[1] == 0

    def never(self, f, I, E, evs):
        """members which nothing sets after the allocation"""
        st = self.structof(f, evs, E)
        if st is None:
            fs = {tuple(self.m.last_field(f, i.ops[1]) or ()) for i, p, off, n, k in evs if k == "out"} - {()}
            for i in f.all_ins():
                if i.op == "getelementptr" and st is None:
                    r, steps = self.m.base(f, ("i", i.id))
                    if r[0] == "i" and f.ins[r[1]].op == "load" and tuple(self.m.last_field(f, f.ins[r[1]].ops[0]) or ("",)) in fs:
                        st = next((x[1] for x in steps if x[0] == "f" and self.m.structs.get(x[1], {}).get("size") == E), None)
        if st is None:
            c = [x for x, d in self.m.structs.items() if d["size"] and E % d["size"] == 0 and E > 8 and (d["size"] == E or any(s[0] == "f" and s[1] == x for i, p, off, n, k in evs for s in self.m.base(f, p)[1]))]
            st = c[0] if len(c) == 1 else None
        if st is None:
            return
        z = self.m.structs[st]["size"]
        yield from self.grown(f, I, st, z)
        for i, p, off, n, kind in evs:
            if kind == "w" and i.op == "call" and (n is None or const(n) is None or const(n) >= z) or kind == "fill" and (n == ALL or n.bit_count() >= z // 2):
                return
        for i in f.all_ins():
            if i.op == "call" and (i.callee or "").startswith(("llvm.mem", "mem")) and len(i.ops) > 2 and i.ops[2] == ("c", z, 64):
                return
        mask = 0
        for i, p, off, n, kind in evs:
            if kind == "w" and off is not None and n is not None and const(n) and all(c % z == 0 for x, c in off.items() if x != 1):
                mask |= bits(off.get(1, 0) % z, const(n))
        after = {f.name}
        for i in f.all_ins():
            if i.op == "call" and i.callee in self.m.defined:
                after |= self.m.reachable(i.callee)
        self.stats["structures"] += 1
        for fl in self.m.structs[st]["fields"]:
            rd, wr = self.readers(st, fl["name"]), self.setters(st, fl["name"])
            b = bits(fl["off"], fl["size"])
            if mask & b == b:
                pass
            elif rd and not wr & after:
                yield I, "the member %s of what is allocated here is not set" % fl["name"]
            if rd and self.skipped(f, I, fl, z):
                yield I, "the member %s is not set in each of the elements allocated here" % fl["name"]

    def skipped(self, f, I, fl, z):
        """the elements are set one by one in a loop, but a member is not always set"""
        r = False
        for h, body, latches in self.loopsof(f):
            own, other = set(), False
            for b in body:
                for i in f.bmap[b].ins:
                    for p, n, kind in self.at(f, i) if i.op == "store" else []:
                        w = self.where(f, p, i)
                        if w and w[0][0:2] == ("new", I) and w[1] is not None:
                            cs = [x for x in w[1] if x != 1 and x[0] == "i" and self.counter(f, x) and self.counter(f, x)[0] is h and abs(w[1][x]) == z]
                            if len(cs) == 1 and w[1].get(1, 0) % z == fl["off"]:
                                own.add(i.id)
                            elif cs:
                                other = True
                            else:
                                return False
            if own and other and len(latches) == 1:
                l = f.bmap[next(iter(latches))].term
                if self.way(f, (h, len([i for i in h.ins if i.op == "phi"])), l, lambda J: J.id in own):
                    r = True
                else:
                    return False
        return r

    def grown(self, f, I, st, z):
        """a growing list: on every way to where the number of elements is increased, the new element is set"""
        def count(x):
            while x[0] == "i" and f.ins[x[1]].op in ("zext", "sext", "trunc"):
                x = f.ins[x[1]].ops[0]
            return self.m.last_field(f, f.ins[x[1]].ops[0]) if x[0] == "i" and f.ins[x[1]].op == "load" else None

        def element(p):
            """(count field, steps behind the element) if p is in the element behind the last one"""
            root, steps = self.m.base(f, p)
            for k, x in enumerate(steps):
                if x[0] == "x" and x[2] == z and root[0] == "i" and f.ins[root[1]].op in ("load", "call", "phi"):
                    c = count(x[1])
                    if c:
                        return tuple(c), steps[k + 1:]
            return None

        whole, some, incs, old = set(), {}, {}, {}
        for i in f.all_ins():
            if i.op == "store":
                v = i.ops[0]
                c = self.m.last_field(f, i.ops[1])
                if c and v[0] == "i" and f.ins[v[1]].op == "add" and ("c", 1, 64) in [o[:2] + (64,) for o in f.ins[v[1]].ops] and any(count(o) == c for o in f.ins[v[1]].ops):
                    incs.setdefault(tuple(c), []).append(i)
            if i.op == "load" and i.ops[0][0] == "i":
                e = element(i.ops[0])
                x = [t for t in e[1] if t[0] == "f" and t[1] == st] if e else None
                if x:
                    old.setdefault(e[0], []).append((i, x[0][3]))
            if i.op not in ("store", "call"):
                continue
            for p in i.ops[1:] if i.op == "store" else i.ops:
                e = element(p) if p[0] == "i" else None
                if e:
                    x = [t for t in e[1] if t[0] == "f"]
                    if x and x[0][1] == st:
                        some.setdefault((e[0], x[0][3]), set()).add(i.id)
                    else:
                        whole.add(i.id)
                elif p[0] == "i" and i.op == "call" and i.callee and i.callee.startswith(("llvm.mem", "mem")) and p == i.ops[0] and (len(i.ops) < 3 or i.ops[2][0] != "c" or i.ops[2][1] >= z) and \
                        any(t[0] == "x" and t[2] == z for t in self.m.base(f, p)[1]):
                    return          # elements are cleared in some other way
        for c, goals in incs.items():
            if not any(k[0] == c for k in some) and not whole or any(self.way(f, (f.entry, 0), i, lambda J: J.id in whole or J.id in some.get((c, n), ())) for i, n in old.get(c, [])):
                continue
            goals = [g for g in goals if self.way(f, (I.blk, I.blk.ins.index(I) + 1), g, lambda J: False)]
            for fl in self.m.structs[st]["fields"]:
                if not self.readers(st, fl["name"]) or not whole and self.setters(st, fl["name"]) != {f.name}:
                    continue
                own = some.get((c, fl["name"]), set()) | whole
                for g in goals:
                    for s in [None] + goals:
                        start = (f.entry, 0) if s is None else (s.blk, s.blk.ins.index(s) + 1)
                        if self.way(f, start, g, lambda J: J.id in own):
                            yield I, "the member %s of what is added at %s is not set on some way" % (fl["name"], g.where())
                            return

    def pieces(self, sets, mask):
        """mask is not set piecewise"""
        return mask is None or not any(m != ALL and m & mask and mask & ~m for m in sets.values())

    def notnull(self, f, o):
        if o[0] != "heap":
            return {}
        r = {}
        for i in f.all_ins():
            if i.op == "icmp" and ("null",) in i.ops:
                x = [y for y in i.ops if y != ("null",)]
                w = self.resolve(f, x[0], i) if x and x[0][0] == "i" else None
                if w and w[0] == o:
                    n, neg = self.L.norm(f, i)
                    r[n] = False
        return r

    def nameof(self, f, p, I):
        x = self.m.last_field(f, p)
        v = f.var(("i", I.id)) or "what is allocated in line %s" % I.line
        return "%s of %s" % (x[1], v) if x else v


def check(tree, rep):
    m = tree.module()
    Z = Init(m, rep)
    Z.stats = {"objects": 0, "loose": 0, "uses": 0, "handed_out": 0, "texts": 0, "structures": 0}
    vs = 0
    for f in m.defined.values():
        if f.file in ("lex.yy.c", "parser.c"):
            continue
        for J, u, w in Z.undefs(f):
            vs += 1
            if w:
                rep.violation("%s-variable" % f.name, "%s: %s is used before it has been set" % (u.where(), f.var(("i", J.id)) or "a variable"))
        for k, (i, t) in enumerate(Z.objects(f)):
            rep.violation("%s-%d" % (f.name, k + 1), "%s: %s" % (i.where(), t))
    st = Z.stats
    rep.need(st["objects"] > 60, "only %d objects" % st["objects"])
    rep.need(st["uses"] > 100, "only %d uses" % st["uses"])
    rep.cov.update(dict(st, uses_of_variables=vs, explanation="objects: local variables and allocated blocks whose bytes are followed from where they come into being; a use of bytes (a read, handing out of a structure one of whose read members was not set, "
                        "a call which reads through its argument) is a violation if a path which contradicts no condition leads there past everything that may set them; texts: blocks which become texts need a terminator; "
                        "loose: objects whose address gets out of sight before any use, which are left alone; uses_of_variables: merges of a variable with a path on which it has no value"))
