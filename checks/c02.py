"""C02: memory is used only while it is valid: not after its release, not released twice, not before it is set, not through addresses of ended functions."""
import os, re, subprocess
import common
from c01 import DEREF, Null

FREE = {"free": 0, "fclose": 0, "closedir": 0, "pcre2_code_free_32": 0, "pcre2_match_data_free_32": 0}
WARN = ["uninitialized", "sometimes-uninitialized", "return-stack-address", "array-bounds", "sizeof-pointer-memaccess", "sizeof-array-argument", "dangling", "free-nonheap-object", "memset-transposed-args",
        "uninitialized-const-reference", "static-self-init", "infinite-recursion", "return-type", "suspicious-memaccess", "array-bounds-pointer-arithmetic"]
SAME = {"strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "strtok": 0, "strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "memchr": 0, "u32_strchr": 0, "u32_strstr": 0, "u32_strcpy": 0,
        "u32_cpy": 0, "u32_strrchr": 0, "basename": 0}
NOTHEAP = set(SAME) - {"strcpy", "strcat", "strncpy", "strncat", "u32_strcpy", "u32_cpy"} | {"getenv", "setlocale", "strerror", "localeconv", "nl_langinfo", "locale_charset"}


def contains(k, x):
    return k == x or isinstance(k, tuple) and any(contains(y, x) for y in k if isinstance(y, tuple))


class Life(Null):
    def __init__(self, m, rep):
        Null.__init__(self, m, rep)
        self.rel = {}
        for n, k in FREE.items():
            if n not in m.defined:
                self.rel[n] = k
        ch = True
        while ch:
            ch = False
            for f in m.defined.values():
                if f.name in self.rel or f.file in ("lex.yy.c", "parser.c"):
                    continue
                for i in f.calls():
                    if i.callee in self.rel and len(i.ops) > self.rel[i.callee] and i.ops[self.rel[i.callee]][0] == "a" and f.ret == "void":
                        self.rel[f.name] = i.ops[self.rel[i.callee]][1]
                        ch = True
                        break
        # what else a releasing function releases: fields of what it is given
        self.deep = {}
        for f in m.defined.values():
            if f.name in self.rel:
                for i in f.calls():
                    if i.callee in self.rel:
                        o = i.ops[self.rel[i.callee]]
                        if o[0] == "i" and f.ins[o[1]].op == "load" and contains(self.key(f, f.ins[o[1]].ops[0]), ("a", self.rel[f.name])):
                            self.deep.setdefault(f.name, set()).add(m.last_field(f, f.ins[o[1]].ops[0]))
        self._stored = {}
        for f in m.defined.values():
            t = set()
            for i in f.all_ins():
                if i.op == "store":
                    t.add(m.last_field(f, i.ops[1]) or (("g", i.ops[1][1]) if i.ops[1][0] == "g" else None))
            self._stored[f.name] = t

    def stored(self, name):
        r = set()
        for n in self.m.reachable(name):
            r |= self._stored.get(n, set())
        return r

    # ------------------------------------------------ conditions
    def norm(self, f, I):
        """(predicate, operands) of a comparison, with loads named by what they load; polarity"""
        p = I.d.get("pred")
        a, b = (self.through(f, o) for o in I.ops[:2])
        neg = {"ne": "eq", "uge": "ult", "sge": "slt", "ugt": "ule", "sgt": "sle"}
        if p in neg:
            return (neg[p], a, b), True
        return (p, a, b), False

    def through(self, f, o):
        while o[0] == "i" and f.ins[o[1]].op in ("sext", "zext"):
            o = f.ins[o[1]].ops[0]
        return ("*", self.key(f, f.ins[o[1]].ops[0])) if o[0] == "i" and f.ins[o[1]].op == "load" else o

    def lends(self, name):
        """arguments which the function may return as they are: (number, what global variables say then)"""
        if name not in self._lends:
            r = []
            f = self.m.defined.get(name)
            if f is not None and f.file not in ("parser.c", "lex.yy.c"):
                for i in f.all_ins():
                    if i.op == "ret" and i.ops:
                        p = f.ins[i.ops[0][1]] if i.ops[0][0] == "i" else None
                        for b, o in p.ops if p is not None and p.op == "phi" else [(i.blk.id, i.ops[0])]:
                            if o[0] == "a":
                                fa = {}
                                if p is not None and p.op == "phi":
                                    x = self.branchfact(f, f.bmap[b], p.blk)
                                    if x:
                                        fa[x[0]] = x[1]
                                for n, v in self.entryfacts(f, f.bmap[b]).items():
                                    fa.setdefault(n, v)
                                r.append((o[1], {n: v for n, v in fa.items() if not any(contains(n, z) for z in self.refs(n))}))
            self._lends[name] = r
        return self._lends[name]

    _lends = {}

    def parts(self, f, k):
        """fields and variables whose contents a condition is about; None for those without a name"""
        r = set()
        if isinstance(k, tuple):
            if k and k[0] == "*":
                r.add(self.cellname.get((f.name, k[1])))
            for y in k:
                r |= self.parts(f, y)
        return r

    def refs(self, k):
        """values of the function a name is made of"""
        r = set()
        if isinstance(k, tuple):
            if k and k[0] in ("i", "a") and len(k) == 2:
                return {k}
            for y in k:
                r |= self.refs(y)
        return r

    def branchfact(self, f, blk, succ):
        """the comparison decided by going from blk to succ"""
        t = blk.term
        if t.op != "br" or len(t.d["succ"]) != 2 or t.d["succ"][0] == t.d["succ"][1]:
            return None
        c = t.ops[0]
        if c[0] != "i" or f.ins[c[1]].op != "icmp":
            return None
        n, neg = self.norm(f, f.ins[c[1]])
        v = t.d["succ"][0] == succ.id
        return n, (v != neg)

    def entryfacts(self, f, blk):
        """comparisons known when blk is entered: from chains of single predecessors and dominators"""
        facts = {}
        b = blk
        seen = set()
        while b is not None and b.id not in seen:
            seen.add(b.id)
            if len(b.pred) == 1:
                x = self.branchfact(f, b.pred[0], b)
                if x:
                    facts.setdefault(*x)
                b = b.pred[0]
            else:
                d = self.idom(f, b)
                b = d
        return facts

    def idom(self, f, b):
        dm = f.dom()[b.id] if callable(f.dom) else f.dom[b.id]
        best = None
        for x in dm:
            x = x if isinstance(x, int) else x.id
            if x == b.id:
                continue
            dx = f.dom()[x] if callable(f.dom) else f.dom[x]
            if best is None or len(dx) > best[0]:
                best = (len(dx), x)
        return f.bmap[best[1]] if best else None

    # ------------------------------------------------ walk
    def starts(self, f, site, arg):
        """where the value released at site is known from: (block, index, previous block, aliases, cells, armed)"""
        out = [(site.blk, site.idx + 1, None, frozenset(self.derived(f, arg) | self.scanned(f, arg)), frozenset(), True)]
        if arg[0] == "a":
            out.append((f.blocks[0], 0, None, frozenset([arg]), frozenset(), False))
        if arg[0] != "i":
            return out
        for o in self.origins(f, arg, set()):
            if o[0] == "i" and f.ins[o[1]].op == "call":
                C = f.ins[o[1]]
                for k, fa in self.lends(C.callee):
                    if C.ops[k][0] in ("i", "a"):
                        out.append((C.blk, C.idx + 1, None, frozenset([o, C.ops[k]]), frozenset(), False, fa))
        D = f.ins[arg[1]]
        if D.op == "load":
            k = self.key(f, D.ops[0])
            out[0] = out[0][:4] + (frozenset([k]), True)
            for i in f.all_ins():
                if i.op == "load" and self.key(f, i.ops[0]) == k:
                    out.append((i.blk, i.idx + 1, None, frozenset([("i", i.id)]), frozenset([k]), False))
        elif D.op == "phi":
            for p, o in D.ops:
                if o[0] in ("i", "a"):
                    g = o[0] == "i" and f.ins[o[1]].op == "load" and f.ins[o[1]].ops[0][0] == "g"
                    out.append((D.blk, 0, p, frozenset([o]), frozenset([self.key(f, f.ins[o[1]].ops[0])] if g else []), False))
        elif D.op == "call":
            out.append((D.blk, D.idx + 1, None, frozenset([arg]), frozenset(), False))
        return out

    def scanned(self, f, arg):
        """strtok() remembers the string it was given"""
        o = self.origins(f, arg, set())
        return {("strtok",)} if any(i.ops[0][0] in ("i", "a") and self.origins(f, i.ops[0], set()) & o for i in f.calls("strtok")) else set()

    def derived(self, f, arg):
        r = {arg}
        ch = True
        while ch:
            ch = False
            for i in f.all_ins():
                me = ("i", i.id)
                if me in r:
                    continue
                if i.op in ("getelementptr", "bitcast", "freeze") and i.ops[0] in r or i.op == "call" and i.callee in SAME and i.ops[SAME[i.callee]] in r \
                        or i.op == "phi" and all(o in r or o == me for _, o in i.ops):
                    r.add(me)
                    ch = True
        return r

    def arrives(self, f, site, arg, leaf):
        """can the release at site be given the value leaf, one of those arg may have"""
        if leaf == arg:
            return True
        st = [(i.blk, 0, b, frozenset([leaf]), frozenset(), False) for i in f.all_ins() if i.op == "phi" for b, o in i.ops if o == leaf]
        self.arrived = False
        self.follow(f, site, arg, st, True)
        return self.arrived

    def follow(self, f, site, arg, st=None, only=False):
        """from the instruction after site, with arg released there: first uses of it"""
        res = []
        if st is None and arg[0] == "i" and f.ins[arg[1]].op in ("getelementptr",):
            return res
        if st is None:
            over = False
            for s in self.starts(f, site, arg):
                r = self.follow(f, site, arg, [s])
                if r is None:
                    over = True
                for x in r or ():
                    if x not in res:
                        res.append(x)
            if over:
                self.rep.unresolved("%s: too many paths around the release at line %d" % (f.name, site.line))
            return res
        back = self.reaching(f, site.blk)
        done = set()
        seen = set()
        todo = []
        for blk, idx, prev, al, cells, armed, *more in st:
            if armed or blk.id in back:
                fa = self.entryfacts(f, blk if prev is None else f.bmap[prev])
                if more and any(fa.get(k, v) != v for k, v in more[0].items()):
                    continue
                fa.update(more[0] if more else {})
                todo.append((blk, idx, prev, al, cells, frozenset(), frozenset(), frozenset(fa.items()), armed))
        n = 0
        while todo:
            blk, idx, prev, dang, cells, inner, consts, facts, armed = todo.pop()
            if not armed and blk.id not in back:
                continue
            consts = frozenset(x for x in consts if x[0][0] != "i" or blk.id in self.liveblocks(f, x[0][1]))
            if idx == 0:
                dang = frozenset(x for x in dang if x[0] != "i" or blk.id in self.liveblocks(f, x[1]))
                inner = frozenset(x for x in inner if x[0] != "i" or blk.id in self.liveblocks(f, x[1]))
            sk = (blk.id, idx, prev if idx == 0 else None, dang, cells, inner, consts, armed)
            if sk in seen:
                continue
            seen.add(sk)
            n += 1
            if n > 3000:
                return res or None
            dang, cells, inner, cd, fa = set(dang), set(cells), set(inner), dict(consts), dict(facts)

            def val(o):
                return o[1] if o[0] == "c" else "null" if o[0] == "null" else cd.get(o)

            def hit(I, what):
                if (I.id, what) not in done:
                    done.add((I.id, what))
                    res.append((I, what))

            stop = False
            new = {}
            for I in blk.ins[idx:]:
                me = ("i", I.id)
                if I.op == "phi":
                    v = None
                    for b, o in I.ops:
                        if b == prev:
                            v = o
                    new[me] = (v in dang if v else False, val(v) if v else None)
                    if v in inner:
                        inner.add(me)
                    continue
                if new:
                    self.redefine(new, dang, cells, cd, fa)
                    new = {}
                if I.op not in ("store", "br", "ret", "switch"):
                    self.redefine({me: (False, None)}, dang, cells, cd, fa)
                    inner.discard(me)
                if I.op == "getelementptr" or I.op in ("bitcast", "freeze"):
                    if I.ops[0] in dang:
                        dang.add(me)
                    if I.ops[0] in inner:
                        inner.add(me)
                elif I.op == "select":
                    c = val(I.ops[0])
                    o = I.ops[1] if c == 1 else I.ops[2] if c == 0 else None
                    if o is not None:
                        if o in dang:
                            dang.add(me)
                        elif val(o) is not None:
                            cd[me] = val(o)
                elif I.op == "load":
                    if I.ops[0] in dang:
                        if armed:
                            hit(I, "read")
                            stop = True
                            break
                        if self.m.last_field(f, I.ops[0]) in self.deep.get(site.callee, ()):
                            inner.add(me)
                    if self.key(f, I.ops[0]) in cells:
                        dang.add(me)
                elif I.op == "store":
                    if I.ops[1] in dang and armed:
                        hit(I, "written")
                        stop = True
                        break
                    k = self.key(f, I.ops[1])
                    for c in [c for c in cells if c != k and contains(c, ("*", k))]:
                        cells.discard(c)
                    for n_ in [n_ for n_ in fa if contains(n_, ("*", k))]:
                        del fa[n_]
                    fld = self.cellname.get((f.name, k))
                    for c in [c for c in cells if c[0] == "some" and fld == c[2]]:
                        cells.discard(c)
                    if I.ops[0] in dang:
                        cells.add(k)
                    else:
                        cells.discard(k)
                elif I.op == "icmp":
                    a, b = val(I.ops[0]), val(I.ops[1])
                    p = I.d.get("pred")
                    r = None
                    if p in ("eq", "ne") and (I.ops[0] in dang and b == "null" or I.ops[1] in dang and a == "null"):
                        r = p == "ne"
                    elif p in ("eq", "ne") and I.ops[0] in dang and I.ops[1] in dang and not any(o[0] == "i" and f.ins[o[1]].op == "getelementptr" for o in I.ops[:2]):
                        r = p == "eq"
                    elif a is not None and b is not None:
                        a, b = (0 if a == "null" else a), (0 if b == "null" else b)
                        r = {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b, "ult": 0 <= a < b, "ugt": a > b >= 0}.get(p)
                    else:
                        nm, neg = self.norm(f, I)
                        if nm in fa:
                            r = fa[nm] != neg
                    if r is not None:
                        cd[me] = int(r)
                elif I.op in ("zext", "sext", "trunc"):
                    if isinstance(val(I.ops[0]), int):
                        cd[me] = val(I.ops[0])
                elif I.op == "call":
                    c = I.callee
                    if c in ("exit", "abort", "_exit", "__assert_fail"):
                        stop = True
                        break
                    if I is site and not armed:
                        if arg not in dang:
                            stop = True
                            break
                        armed = self.arrived = True
                        if only:
                            return res
                        dang |= inner | self.scanned(f, arg)
                        inner = set()
                    else:
                        hits = [i for i, o in enumerate(I.ops) if o in dang]
                        if c and c.startswith("llvm."):
                            if armed and c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and any(i < 2 for i in hits):
                                hit(I, "used")
                                stop = True
                                break
                            continue
                        if not armed and (c in self.rel and self.rel[c] in hits or c == "realloc" and 0 in hits):
                            stop = True
                            break
                        if armed and c in self.rel and self.rel[c] in hits:
                            hit(I, "released again")
                            stop = True
                            break
                        if armed and hits:
                            hit(I, "used" if c == "realloc" or c in DEREF or c not in self.m.defined or any(i < self.m.defined[c].nargs and self.mustuse(c, i) for i in hits) else "passed on")
                            stop = True
                            break
                        if armed and c in ("strtok", "u32_strtok") and I.ops[0][0] == "null" and ("strtok",) in dang:
                            hit(I, "used")
                            stop = True
                            break
                        if c in ("strtok", "u32_strtok"):
                            dang.discard(("strtok",))
                        if c in SAME and I.ops[SAME[c]] in dang:
                            dang.add(me)
                    g = self.m.defined.get(c)
                    if c is None:
                        cells.clear()
                    elif g is not None:
                        st = None
                        for k in list(cells):
                            if k[0] == "some":
                                if st is None:
                                    st = self.stored(c)
                                if k[2] in st:
                                    cells.discard(k)
                            if k[0] in ("+", "g", "*", "a", "i", "gep"):
                                if self.local(f, k):
                                    if any(o[0] == "i" and contains(k, o) for o in I.ops):
                                        cells.discard(k)
                                    continue
                                if st is None:
                                    st = self.stored(c)
                                fld = self.cellname.get((f.name, k))
                                if fld is None or fld in st or None in st and fld is None:
                                    cells.discard(k)
                        for n_ in list(fa):
                            nm = self.parts(f, n_)
                            if nm:
                                if st is None:
                                    st = self.stored(c)
                                if None in nm or nm & st:
                                    del fa[n_]
                    elif any(o[0] == "i" and any(contains(k, o) for k in cells) for o in I.ops) and c not in DEREF and c not in ("memset",) and c not in self.rel:
                        for k in list(cells):
                            if any(o[0] == "i" and contains(k, o) for o in I.ops):
                                cells.discard(k)
                elif I.op == "ret":
                    if armed and I.ops and I.ops[0] in dang:
                        hit(I, "returned")
                    for k in cells if armed else ():
                        if (self.base(k) or "-")[0] == "g":
                            hit(I, "still referred to by %s at the end of the function" % self.base(k)[1])
                        elif k[0] == "a":
                            hit(I, "still referred to by what argument %d of the function points to when it ends" % (k[1] + 1))
                        elif I.ops and I.ops[0][0] == "i" and I.ops[0] not in dang and (k[1] == I.ops[0] if k[0] == "some" else self.base(k) == I.ops[0]):
                            hit(I, "still referred to by what is returned")
                    stop = True
                    break
            if new:
                self.redefine(new, dang, cells, cd, fa)
            if stop or not dang and not cells:
                continue
            t = blk.term
            nxt = blk.succ
            if t.op == "br" and len(t.d["succ"]) == 2:
                c = val(t.ops[0])
                if isinstance(c, int):
                    nxt = [f.bmap[t.d["succ"][0 if c else 1]]]
            elif t.op == "switch":
                nxt = blk.succ
            elif t.op == "unreachable":
                continue
            for s in nxt:
                fb = dict(fa)
                x = self.branchfact(f, blk, s)
                if x:
                    if fb.get(x[0], x[1]) != x[1]:
                        continue
                    fb[x[0]] = x[1]
                todo.append((s, 0, blk.id, frozenset(dang), frozenset(cells), frozenset(inner), frozenset(cd.items()), frozenset(fb.items()), armed))
        return res

    def base(self, k):
        while k[0] in ("+", "*", "gep") and isinstance(k[1], tuple):
            if k[0] == "*":
                return None
            k = k[1]
        return k

    def reaching(self, f, blk):
        r = {blk.id}
        todo = [blk]
        while todo:
            for p in todo.pop().pred:
                if p.id not in r:
                    r.add(p.id)
                    todo.append(p)
        return r

    _live = {}

    def liveblocks(self, f, i):
        """blocks at whose start the value of instruction i may still be needed"""
        k = (f.name, i)
        if k not in self._live:
            d = f.ins[i].blk
            r = set()
            todo = []
            for u in f.uses.get(("i", i), []):
                if u.op == "phi":
                    todo += [f.bmap[b] for b, o in u.ops if o == ("i", i) and b != d.id]
                    if any(o == ("i", i) and b == d.id for b, o in u.ops):
                        pass
                elif u.blk is not d:
                    todo.append(u.blk)
            while todo:
                b = todo.pop()
                if b.id in r:
                    continue
                r.add(b.id)
                todo += [p for p in b.pred if p is not d]
            for u in f.uses.get(("i", i), []):
                if u.op == "phi":
                    r.add(u.blk.id)
            self._live[k] = r
        return self._live[k]

    def redefine(self, new, dang, cells, cd, fa):
        for k, (d, v) in new.items():
            dang.discard(k)
            cd.pop(k, None)
        for k, (d, v) in new.items():
            for c in [c for c in cells if contains(c, k)]:
                cells.discard(c)
                if self.base(c) not in (k, None) and c[0] != "some":
                    for fn in self.fnames(c):
                        cells.add(("some", self.base(c), fn))
            for n in [n for n in fa if contains(n, k)]:
                del fa[n]
            if d:
                dang.add(k)
            elif v is not None:
                cd[k] = v

    def local(self, f, k):
        while k[0] in ("+", "*"):
            if k[0] == "*":
                return False
            k = k[1]
        return k[0] == "i" and f.ins[k[1]].op == "alloca"

    def mustuse(self, name, k):
        s = self.summary(name, k)
        return s["must"]

    cellname = {}
    cellbykey = {}

    def fnames(self, k):
        return {n for (_, kk), n in self.cellname.items() if kk == k}

    def nameCells(self):
        for f in self.m.defined.values():
            for i in f.all_ins():
                if i.op in ("load", "store"):
                    a = i.ops[0] if i.op == "load" else i.ops[1]
                    fld = self.m.last_field(f, a) or (("g", a[1]) if a[0] == "g" else None)
                    if fld:
                        self.cellname[(f.name, self.key(f, a))] = fld

    def origins(self, f, ref, seen):
        if ref in seen:
            return set()
        seen.add(ref)
        if ref[0] != "i":
            return {ref}
        I = f.ins[ref[1]]
        if I.op == "phi":
            return set().union(*[self.origins(f, o, seen) for _, o in I.ops])
        if I.op == "select":
            return self.origins(f, I.ops[1], seen) | self.origins(f, I.ops[2], seen)
        return {ref}


def check(tree, rep):
    m = tree.module()
    L = Life(m, rep)
    L.nameCells()
    rep.need("free" in L.rel or "free" in m.functions, "nothing is ever released")
    sites = 0
    for f in m.defined.values():
        if f.file in ("lex.yy.c", "parser.c") and (f.name.startswith("yy") and f.name not in ("yylex", "yyparse")):
            continue
        ord_ = {}
        for i in f.calls():
            c = i.callee
            if c not in L.rel or L.rel[c] >= len(i.ops):
                continue
            if f.file in ("lex.yy.c", "parser.c") and not os.path.basename(i.file or "").startswith(("lexer.l", "parser.y")):
                continue
            arg = i.ops[L.rel[c]]
            ord_[c] = ord_.get(c, 0) + 1
            sites += 1
            key = "%s-%s-%d" % (f.name, c, ord_[c])
            for o in L.origins(f, arg, set()):
                why = None
                J = f.ins[o[1]] if o[0] == "i" else None
                if m.cstr(o) is not None or o[0] == "gep" or o[0] == "g" or J is not None and J.op == "alloca":
                    why = "memory which was not allocated"
                elif J is not None and J.op == "call" and J.callee in NOTHEAP:
                    why = "what %s returned, which was not allocated for the caller" % J.callee
                elif J is not None and J.op == "getelementptr" and c == "free" and J.ops[1:] and all(x[0] == "c" for x in J.ops[1:]) and any(x[1] for x in J.ops[1:]):
                    why = "an address within an allocated block"
                if why and L.arrives(f, i, arg, o):
                    rep.violation("notheap-" + key, "%s: %s is given %s" % (i.where(), c, why))
            for u, what in L.follow(f, i, arg):
                rep.violation("after-" + key, "%s: what %s releases here is %s (%s)" % (i.where(), c, what if not what.startswith(("read", "writ", "used", "ret", "rel")) else what + " afterwards", u.where()))
    rep.need(sites > 40, "only %d releases found" % sites)

    # addresses of local variables do not leave the function
    rets = 0
    for f in m.defined.values():
        if f.file in ("lex.yy.c", "parser.c"):
            continue
        for i in f.all_ins():
            if i.op == "ret" and i.ops:
                rets += 1
                for o in L.origins(f, i.ops[0], set()):
                    while o[0] == "i" and f.ins[o[1]].op in ("getelementptr", "bitcast"):
                        o = f.ins[o[1]].ops[0]
                    if o[0] == "i" and f.ins[o[1]].op == "alloca":
                        rep.violation("local-%s" % f.name, "%s: the address of a local variable is returned" % i.where())

    # realloc: the old block is gone
    rl = 0
    for f in m.defined.values():
        if f.file == "lex.yy.c" or f.file == "parser.c":
            continue
        for i in f.calls("realloc"):
            rl += 1
            a = i.ops[0]
            if a[0] == "null":
                continue
            ok = [u for u in f.uses.get(("i", i.id), [])]
            for u, what in realloced(L, f, i, a):
                rep.violation("realloc-%s-%d" % (f.name, rl), "%s: the old block is %s after realloc gave a new one (%s)" % (i.where(), what, u.where()))

    # the compiler's own definite findings
    files = 0
    cmd = [common.LLVM + "clang", "-fsyntax-only", "-fno-caret-diagnostics", "-I" + tree.dir, "-I" + common.SRC, "-Wno-everything"] + ["-W" + w for w in WARN]
    for c in tree.cfiles:
        p = subprocess.run(cmd + [c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        files += p.returncode == 0
        for x in re.finditer(r"(?m)^(\S+?):(\d+):\d+: (?:warning|error): (.*?) \[-W([\w-]+)\]$", p.stdout):
            b = os.path.basename(x.group(1))
            if b in ("parser.c", "lex.yy.c"):
                continue
            rep.violation("clang-%s-%s-%s" % (b, x.group(4), x.group(3)[:60]), "%s:%s: %s" % (b, x.group(2), x.group(3)))
    rep.cov.update({"releases": sites, "releasing_functions": sorted(L.rel), "reallocations": rl, "returns": rets, "files_checked_by_compiler": files,
                    "explanation": "from every release the paths through the function were followed; reading, writing, passing on to a function which follows the pointer, releasing again or returning what was released is a violation, "
                    "as is the release of memory that was not allocated or that a global variable keeps referring to"})


def realloced(L, f, i, a):
    """uses of the old block on the path where realloc succeeded"""
    cells = set()
    r = ("i", i.id)
    # the result replaces the old pointer where it came from
    res = []
    for u, what in L.follow(f, i, a):
        # on paths where the result is null the old block is still valid
        if nullpath(L, f, i, u):
            continue
        res.append((u, what))
    return res


def nullpath(L, f, i, u):
    facts = L.entryfacts(f, u.blk)
    for (p, a, b), v in facts.items():
        if p == "eq" and v and (("i", i.id) in (a, b) and ("null",) in (a, b)):
            return True
        if p == "eq" and v and ("null",) in (a, b):
            # the result was stored and compared from there
            return True
    return False
