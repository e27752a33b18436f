"""C27: every run comes to an end: no loop or recursion goes on without anything changing."""
import common
from c02 import Life, contains

PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "strspn", "strcspn", "memcmp", "isspace", "isdigit", "isalpha", "isalnum", "tolower", "toupper", "__ctype_b_loc",
        "__ctype_tolower_loc", "__ctype_toupper_loc", "abs", "u32_strlen", "u32_strcmp", "u32_strncmp", "u32_cmp", "u32_strchr", "u32_strrchr", "u32_strstr", "u32_strwidth", "u32_width", "uc_width", "uc_is_blank",
        "uc_is_space", "uc_is_property_white_space", "uc_is_alpha", "uc_is_digit", "uc_is_upper", "uc_is_lower", "u32_startswith", "u32_endswith", "u32_next", "uc_is_c_whitespace", "uc_is_property_bidi_whitespace", "uc_is_cntrl", "locale_charset", "tigetnum", "u32_strnlen", "feof", "ferror", "fileno", "isatty", "getenv"}
QUIET = {"free", "malloc", "calloc", "strdup", "printf", "fprintf", "fputs", "putc", "fputc", "puts", "putchar", "fflush", "perror", "u32_strdup", "u32_cpy_alloc", "vfprintf", "ulc_vfprintf", "ulc_fprintf", "fwrite",
         "realloc", "u32_strconv_to_encoding", "u32_strconv_from_encoding", "u32_conv_to_encoding", "u32_conv_from_encoding", "pcre2_compile_32", "pcre2_match_data_create_from_pattern_32", "pcre2_match_data_free_32",
         "pcre2_code_free_32", "__errno_location", "strerror", "exit", "abort"}

# library functions which write through an argument and do nothing else
MEMW = {"strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "u32_cpy": 0, "u32_set": 0, "u32_move": 0, "u32_strcpy": 0, "u32_strcat": 0, "u32_strncpy": 0, "u32_strncat": 0, "memcpy": 0, "memmove": 0, "memset": 0,
        "sprintf": 0, "snprintf": 0, "vsprintf": 0, "vsnprintf": 0, "u32_vsnprintf": 0, "u32_snprintf": 0, "stat": 1, "qsort": 0, "strtol": 1, "__isoc23_strtol": 1, "pcre2_get_error_message_32": 1, "pcre2_match_32": 5,
        "pcre2_substitute_32": 9}

FRESH = {"malloc", "calloc", "strdup", "realloc", "u32_strdup", "u32_strconv_to_encoding", "u32_strconv_from_encoding", "u32_cpy_alloc", "pcre2_match_data_create_from_pattern_32"}


class Progress:
    def __init__(self, m, rep):
        self.m = m
        self.L = Life(m, rep)
        self.L.nameCells()
        self._imp = {}
        self._st = {}
        self._mk = {}
        self._esc = {}

    # ------------------------------------------------ effects
    def root(self, f, a):
        while a[0] == "i" and f.ins[a[1]].op in ("getelementptr", "bitcast"):
            a = f.ins[a[1]].ops[0]
        while a[0] == "gep":
            a = a[1]
        return a

    def escaped(self, f, i):
        k = (f.name, i)
        if k not in self._esc:
            r = False
            todo, seen = [("i", i)], set()
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                for u in f.uses.get(v, []):
                    if u.op in ("getelementptr", "bitcast", "phi", "select"):
                        todo.append(("i", u.id))
                    elif u.op == "store" and u.ops[0] == v or u.op == "call" and not (u.callee or "").startswith("llvm.") or u.op == "ret":
                        r = True
            self._esc[k] = r
        return self._esc[k]

    def loc(self, f, addr):
        r = self.root(f, addr)
        if r[0] == "i" and f.ins[r[1]].op == "alloca":
            return ("alloca", r[1])
        n = self.m.last_field(f, addr)
        if n:
            return n
        return ("g", r[1]) if r[0] == "g" else None

    def message(self, g, i):
        """an indirect call of one of the functions which print messages"""
        return bool(i.ops) and any(self.m.cstr(o) is not None or g.name.startswith("log_") or "printf" in g.name for o in i.ops)

    def roots(self, f, a, seen):
        a = self.root(f, a)
        if a in seen:
            return set()
        seen.add(a)
        if a[0] == "i" and f.ins[a[1]].op == "phi":
            return set().union(*[self.roots(f, o, seen) for _, o in f.ins[a[1]].ops])
        if a[0] == "i" and f.ins[a[1]].op == "select":
            return self.roots(f, f.ins[a[1]].ops[1], seen) | self.roots(f, f.ins[a[1]].ops[2], seen)
        return {a}

    def target(self, f, a):
        """what a write through a changes, seen from outside: names, None for what has no name, ("arg", k)"""
        lo = self.loc(f, a)
        r = set()
        for o in self.roots(f, a, set()):
            if o[0] == "null" or o[0] == "i" and f.ins[o[1]].op == "alloca":
                continue
            if o[0] == "i" and f.ins[o[1]].op == "call" and (f.ins[o[1]].callee in FRESH or self.makes(f.ins[o[1]].callee)):
                continue
            r.add(("arg", o[1]) if o[0] == "a" and lo is None else lo)
        return r

    def makes(self, c):
        """does the function return new memory only"""
        if c not in self._mk:
            self._mk[c] = False
            g = self.m.defined.get(c)
            if g is not None and g.ret == "ptr":
                ok = True
                for i in g.all_ins():
                    if i.op == "ret":
                        for o in self.roots(g, i.ops[0], set()):
                            ok = ok and (o[0] == "null" or o[0] == "i" and g.ins[o[1]].op == "call" and (g.ins[o[1]].callee in FRESH or self.makes(g.ins[o[1]].callee)))
                self._mk[c] = ok
        return self._mk[c]

    def summaries(self):
        self._st = {n: set() for n in self.m.defined}
        ch = True
        while ch:
            ch = False
            for n, g in self.m.defined.items():
                if g.file in ("parser.c", "lex.yy.c"):
                    r = {None}
                else:
                    r = set()
                    for i in g.all_ins():
                        if i.op == "store":
                            r |= self.target(g, i.ops[1])
                        elif i.op == "call" and i.callee:
                            r |= self.effects(g, i)
                if not r <= self._st[n]:
                    self._st[n] |= r
                    ch = True

    def effects(self, f, i):
        c = i.callee
        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            return self.target(f, i.ops[0])
        if c in MEMW and c not in self.m.defined:
            return self.target(f, i.ops[MEMW[c]]) if MEMW[c] < len(i.ops) else set()
        r = set()
        for x in self._st.get(c, ()):
            if isinstance(x, tuple) and x[0] == "arg":
                if x[1] < len(i.ops):
                    r |= self.target(f, i.ops[x[1]])
            else:
                r.add(x)
        return r

    def stored(self, name):
        if not self._st:
            self.summaries()
        return {None if isinstance(x, tuple) and x[0] == "arg" else x for x in self._st.get(name, ())}

    def changes(self, f, i):
        """names of what the call changes outside of it, None for the nameless; local variables of f included"""
        if not self._st:
            self.summaries()
        r = set()
        for x in self._st.get(i.callee, ()):
            if isinstance(x, tuple) and x[0] == "arg":
                if x[1] < len(i.ops):
                    a = i.ops[x[1]]
                    for o in self.roots(f, a, set()):
                        if o[0] == "i" and f.ins[o[1]].op == "alloca":
                            r.add(("alloca", o[1]))
                        elif o[0] != "null" and not (o[0] == "i" and f.ins[o[1]].op == "call" and (f.ins[o[1]].callee in FRESH or self.makes(f.ins[o[1]].callee))):
                            r.add(self.loc(f, a))
            else:
                r.add(x)
        return r

    def impure(self, name):
        """does the function do anything but compute a result from its arguments and the state"""
        if name not in self._imp:
            self._imp[name] = False
            r = False
            for n in self.m.reachable(name):
                g = self.m.defined.get(n)
                if g is None:
                    if n not in PURE and n not in QUIET and n not in MEMW and not n.startswith("llvm."):
                        r = True
                    continue
                for i in g.all_ins():
                    if i.op == "call" and i.callee is None and not self.message(g, i):
                        r = True
            self._imp[name] = r
        return self._imp[name]

    def writes(self, f, I, addr):
        """may the instruction change what is at addr"""
        lo = self.loc(f, addr)
        if I.op == "store":
            ls = self.loc(f, I.ops[1])
            if lo is not None and ls is not None:
                if lo[0] == "alloca" and ls == lo:
                    return True
                return lo == ls
            if lo is None and ls is None:
                return True
            x = lo or ls
            return x[0] == "alloca" and self.escaped(f, x[1]) or x[0] != "alloca" and self.root(f, addr if lo is None else I.ops[1])[0] != "g"
        if I.op == "call":
            c = I.callee
            if c is None:
                return True
            if c.startswith("llvm."):
                if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    return lo is None or self.loc(f, I.ops[0]) in (None, lo) or lo[0] != "alloca"
                return False
            if c in PURE or c in QUIET:
                return False
            if lo is not None and lo[0] == "alloca" and not self.escaped(f, lo[1]):
                return False
            if c in MEMW:
                ls = self.loc(f, I.ops[MEMW[c]]) if MEMW[c] < len(I.ops) else None
                return I.ops[MEMW[c]][0] != "null" and (lo is None or ls is None or ls == lo)
            if c in self.m.defined:
                return lo in self.changes(f, I) or self.impure(c)
            return True
        return False

    # ------------------------------------------------ what changes in a set of blocks
    def variant(self, f, h, body, latches):
        ins = [I for b in body for I in f.bmap[b].ins]
        eff = [I for I in ins if I.op in ("store", "call")]
        var = set()
        vs = lambda o: o[0] == "i" and o[1] in var
        ch = True
        while ch:
            ch = False
            anyvar = any(vs(f.bmap[b].term.ops[0]) for b in body if f.bmap[b].term.ops and (f.bmap[b].term.op == "switch" or f.bmap[b].term.op == "br" and len(f.bmap[b].succ) > 1))
            for I in ins:
                if I.id in var:
                    continue
                v = False
                if I.op == "phi":
                    if I.blk is h:
                        v = any(b in latches and self.step(f, o, ("i", I.id), body, set()) and (vs(o) or self.itself(f, o, I.id, body, set())) for b, o in I.ops)
                    else:
                        v = any(vs(o) for _, o in I.ops) or len({o for _, o in I.ops}) > 1 and anyvar
                elif I.op == "load":
                    v = vs(I.ops[0]) or any(self.writes(f, J, I.ops[0]) for J in eff)
                elif I.op == "call":
                    c = I.callee
                    if c is None or not c.startswith("llvm."):
                        if c == "strtok" and I.ops[0][0] != "null":
                            v = any(vs(o) for o in I.ops)
                        elif c is None or c in QUIET or c not in PURE and c not in self.m.defined:
                            v = True
                        elif c in self.m.defined:
                            v = self.impure(c) or any(vs(o) for o in I.ops) or self.readschanged(c, eff, f)
                        else:
                            v = any(vs(o) for o in I.ops) or any(J.op == "store" and self.loc(f, J.ops[1]) is None or J.op == "call" and J is not I and self.writes(f, J, ("undef",)) for J in eff)
                elif I.op == "alloca":
                    v = False
                else:
                    v = any(vs(o) for o in I.ops if isinstance(o, tuple))
                if v:
                    var.add(I.id)
                    ch = True
        return var

    def itself(self, f, o, phi, body, seen):
        """is the value made from that of the previous iteration"""
        if o[0] != "i" or o in seen or f.ins[o[1]].blk.id not in body:
            return False
        if o[1] == phi:
            return True
        seen.add(o)
        I = f.ins[o[1]]
        return any(self.itself(f, x, phi, body, seen) for x in ([y for _, y in I.ops] if I.op == "phi" else [y for y in I.ops if isinstance(y, tuple) and len(y) == 2]))

    def step(self, f, o, phi, body, seen):
        """is the value at the end of an iteration another than at its beginning"""
        if o == phi or o in seen:
            return False
        seen.add(o)
        if o[0] == "i" and f.ins[o[1]].op == "phi" and f.ins[o[1]].blk.id in body:
            return any(self.step(f, x, phi, body, seen) for _, x in f.ins[o[1]].ops)
        return True

    def readschanged(self, c, eff, f):
        locs = set()
        for n in self.m.reachable(c):
            g = self.m.defined.get(n)
            if g:
                for i in g.all_ins():
                    if i.op == "load":
                        lo = self.loc(g, i.ops[0])
                        if lo is None or lo[0] != "alloca":
                            locs.add(lo)
        for J in eff:
            if J.op == "store":
                ls = self.loc(f, J.ops[1])
                if ls in locs or ls is not None and ls[0] == "alloca" and self.escaped(f, ls[1]):
                    return True
            elif J.op == "call" and J.callee in self.m.defined:
                if self.changes(f, J) & locs:
                    return True
            elif J.op == "call" and J.callee in MEMW:
                if self.loc(f, J.ops[MEMW[J.callee]]) in locs:
                    return True
            elif J.op == "call" and J.callee not in PURE and J.callee not in QUIET and not (J.callee or "").startswith("llvm."):
                return True
        return False

    # ------------------------------------------------ loops
    def konst(self, f, c):
        """truth of a condition which is always the same"""
        if c[0] == "c":
            return c[1]
        if c[0] == "i" and f.ins[c[1]].op == "icmp":
            I = f.ins[c[1]]
            if I.ops[1][0] == "c" and I.ops[1][1] == 0:
                return {"uge": 1, "ult": 0}.get(I.d.get("pred"))
        return None

    def exits(self, f, body):
        """(block, condition) of each way out of the loop, and whether there is any other"""
        r, other = [], False
        for b in body:
            B = f.bmap[b]
            t = B.term
            if t.op in ("ret", "unreachable"):
                other = True
                continue
            out = [s for s in B.succ if s.id not in body]
            if not out:
                continue
            if t.op == "br" and len(t.d["succ"]) == 2:
                k = self.konst(f, t.ops[0])
                if k is not None and t.d["succ"][0 if k else 1] in body:
                    if t.ops[0][0] == "i":
                        self.always = t.line
                    continue
                r.append((B, t.ops[0], t.d["succ"][0] not in body))
            elif t.op == "switch":
                r.append((B, t.ops[0], None))
            else:
                other = True
        return r, other

    def check_loop(self, f, h, body, latches):
        """reason why the loop never ends once entered, or None"""
        self.always = None
        ex, other = self.exits(f, body)
        if self.always:
            return "the condition in line %d always holds" % self.always
        if other:
            return None
        for b in body:
            for I in f.bmap[b].ins:
                if I.op == "call" and I.callee in self.m.defined and self.mayexit(I.callee) and not ex:
                    return None
        if not ex:
            return "it has no way out"
        var = self.variant(f, h, body, latches)
        if all(c[0] != "i" or c[1] not in var for _, c, _ in ex):
            settled = {}
            for I in h.ins:
                if I.op == "phi":
                    x = {o for b, o in I.ops if b in latches}
                    settled[("i", I.id)] = x.pop() if len(x) == 1 else None
            for B, c, outtrue in ex:
                k = fold(f, c, settled)
                if outtrue is None or k is not None and bool(k) == outtrue:
                    return None
            return "nothing in it changes what its end depends on"
        # the condition which counts does not depend on anything that changes, and all other ways out leave the function
        own = [(B, c) for B, c, o in ex if B is h and o is not None]
        if own and own[0][1][0] == "i" and own[0][1][1] not in var:
            I = f.ins[own[0][1][1]]
            if I.op == "icmp" and I.d["pred"] not in ("eq", "ne") and all(B is h or all(self.leaves(f, s) for s in B.succ if s.id not in body) for B, _, _ in ex):
                return "nothing in it changes what the condition in line %d depends on" % (h.term.line or I.line)
        w = self.wrongway(f, h, body, latches, ex, var)
        if w:
            return w
        return None

    def leaves(self, f, b):
        """does the block do nothing but leave the function"""
        for _ in range(4):
            if b.term.op in ("ret", "unreachable"):
                return True
            if len(b.succ) != 1:
                return False
            b = b.succ[0]
        return False

    def mayexit(self, c):
        return any(n in ("exit", "_exit", "abort", "longjmp") for n in self.m.reachable(c))

    def wrongway(self, f, h, body, latches, ex, var):
        """a way out which its counter moves away from"""
        ex = list(ex)
        for B, c, outtrue in ex:
            if c[0] != "i" or outtrue is None or c[1] not in var:
                continue
            I = f.ins[c[1]]
            if I.op == "phi" and I.blk.id in body and I.blk is not h:
                # && and ||: the conditions which decide it
                for b, o in I.ops:
                    X = f.bmap[b]
                    if o[0] == "c" and bool(o[1]) == outtrue and X.term.op == "br" and len(X.term.d["succ"]) == 2 and b in body:
                        ex.append((X, X.term.ops[0], X.term.d["succ"][0] == I.blk.id))
                    elif o[0] == "i" and b in body:
                        ex.append((X, o, outtrue))
                continue
            if I.op != "icmp":
                continue
            a, b = I.ops[:2]
            p = I.d["pred"]
            if b[0] == "i" and b[1] in var:
                a, b = b, a
                p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            if b[0] == "i" and b[1] in var:
                continue
            if outtrue:
                p = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}[p]
            # stays in while p holds
            while a[0] == "i" and f.ins[a[1]].op in ("sext", "zext", "trunc"):
                a = f.ins[a[1]].ops[0]
            st, ptr = self.steps(f, a, h, latches, body)
            if not st:
                continue
            if (p in ("slt", "sle") or ptr and p in ("ult", "ule")) and all(x < 0 for x in st) or p in ("sgt", "sge", "ugt", "uge") and all(x > 0 for x in st):
                return "its counter moves away from where line %d has it end" % (B.term.line or I.line)
        return None

    def steps(self, f, a, h, latches, body):
        """constants by which the counter changes in an iteration, and whether it is a pointer"""
        def inc(J):
            if J.op in ("add", "sub") and J.ops[1][0] == "c":
                return J.ops[1][1] if J.op == "add" else -J.ops[1][1]
            if J.op == "getelementptr" and len(J.ops) == 2 and J.ops[1][0] == "c":
                return J.ops[1][1]
            return None
        if a[0] == "i" and inc(f.ins[a[1]]) is not None:
            a = f.ins[a[1]].ops[0]
        if a[0] != "i" or f.ins[a[1]].op != "phi" or f.ins[a[1]].blk is not h:
            return None, False
        r = set()
        ptr = [False]

        def add(o, d, seen):
            if o == a:
                r.add(d)
                return True
            if o[0] != "i" or o in seen:
                return False
            J = f.ins[o[1]]
            k = inc(J)
            if k is not None:
                ptr[0] |= J.op == "getelementptr"
                if k >= 1 << 31:
                    k -= 1 << (64 if k >= 1 << 32 else 32)
                return add(J.ops[0], d + k, seen)
            if J.op == "phi" and J.blk.id in body:
                return all(add(x, d, seen | {o}) for _, x in J.ops)
            return False
        for b, o in f.ins[a[1]].ops:
            if b in latches and not add(o, 0, frozenset()):
                return None, False
        return r, ptr[0]

    # ------------------------------------------------ paths through a loop on which nothing changes
    def stutter(self, f, h, body, latches, inner):
        """a way from the header back to it which changes none of the conditions it meets"""
        todo = [(h, None, frozenset(), (), (h.id,))]
        n = 0
        while todo:
            blk, prev, env, conds, path = todo.pop()
            n += 1
            if n > 1500:
                return "many"
            env = dict(env)
            if blk is not h:
                new = {}
                for I in blk.ins:
                    if I.op != "phi":
                        break
                    for b, o in I.ops:
                        if b == prev:
                            new[("i", I.id)] = env.get(o, o)
                env.update(new)
            t = blk.term
            if t.op in ("ret", "unreachable"):
                continue
            for s in dict.fromkeys(blk.succ):
                if s.id not in body:
                    continue
                cs = conds
                if len(blk.succ) > 1:
                    c = t.ops[0]
                    c = env.get(c, c)
                    if t.op == "br":
                        want = int(t.d["succ"][0] == s.id)
                        if t.d["succ"][0] == t.d["succ"][1]:
                            want = None
                    else:
                        want = ("sw", s.id)
                    if c[0] == "c" and t.op == "br":
                        if want is not None and int(bool(c[1])) != want:
                            continue
                    elif want is not None:
                        k = self.konst(f, c)
                        if k is not None and k != want:
                            continue
                        nm = self.L.norm(f, f.ins[c[1]]) if c[0] == "i" and f.ins[c[1]].op == "icmp" else ((c,), False)
                        w = want != nm[1] if isinstance(want, int) else want
                        if any(x[0] == nm[0] and x[1] != w for x in cs):
                            continue
                        cs = cs + ((nm[0], w, c, want),)
                if s is h:
                    r = self.stable(f, h, body, path, env, blk.id, cs)
                    if r:
                        return path
                    continue
                if s.id in path:
                    continue
                todo.append((s, blk.id, frozenset(env.items()), cs, path + (s.id,)))
        return None

    def plain(self, f, o, env):
        """the value without additions which cancel each other out"""
        d, x = 0, o
        while x[0] == "i":
            J = f.ins[x[1]]
            if J.op in ("add", "sub") and J.ops[1][0] == "c":
                k = J.ops[1][1] if J.op == "add" else -J.ops[1][1]
            elif J.op == "getelementptr" and len(J.ops) == 2 and J.ops[1][0] == "c":
                k = J.ops[1][1]
            else:
                break
            if k >= 1 << 31:
                k -= 1 << (64 if k >= 1 << 32 else 32)
            d += k
            x = env.get(J.ops[0], J.ops[0])
            if d == 0:
                return x
        return o

    def stable(self, f, h, body, path, env, latch, cs):
        """do the conditions met on the way remain as they are once it has been taken"""
        moved, fixed = {}, {}
        for I in h.ins:
            if I.op != "phi":
                break
            for b, o in I.ops:
                if b == latch:
                    o = self.plain(f, env.get(o, o), env)
                    if o != ("i", I.id):
                        moved[I.id] = o
                    if o[0] in ("c", "null"):
                        fixed[("i", I.id)] = o
        ins = [I for b in path for I in f.bmap[b].ins]
        eff = [I for I in ins if I.op in ("store", "call")]
        inpath = {I.id for I in ins}
        memo = {}

        def var(o):
            if o[0] != "i":
                return False
            o = env.get(o, o)
            if o[0] != "i":
                return False
            if o in fixed:
                return False
            if o[1] in moved:
                return True
            if o[1] not in inpath:
                return False
            if o[1] in memo:
                return memo[o[1]]
            memo[o[1]] = True
            I = f.ins[o[1]]
            if I.op == "phi":
                r = I.blk is not h
            elif I.op == "load":
                r = var(I.ops[0]) or any(self.writes(f, J, I.ops[0]) for J in eff)
            elif I.op == "call":
                c = I.callee
                if c is None or c in QUIET or c not in PURE and c not in self.m.defined:
                    r = True
                elif c in self.m.defined:
                    r = self.impure(c) or any(var(x) for x in I.ops) or self.readschanged(c, eff, f)
                else:
                    r = any(var(x) for x in I.ops) or any(J.op == "store" and self.loc(f, J.ops[1]) is None or J.op == "call" and J is not I and self.writes(f, J, ("undef",)) for J in eff)
            elif I.op == "alloca":
                r = False
            else:
                r = any(var(x) for x in I.ops if isinstance(x, tuple))
            memo[o[1]] = r
            return r

        def uses(o, seen):
            """does it depend on a variable which the way sets to a constant"""
            if o[0] != "i" or o in seen:
                return False
            o = env.get(o, o)
            if o in fixed:
                return True
            if o[0] != "i" or o[1] not in inpath:
                return False
            return any(uses(x, seen | {o}) for x in f.ins[o[1]].ops if isinstance(x, tuple) and x and isinstance(x[0], str))

        def fold(o):
            o = env.get(o, o)
            o = fixed.get(o, o)
            if o[0] == "c":
                return o[1]
            if o[0] == "null":
                return 0
            if o[0] == "i":
                J = f.ins[o[1]]
                if J.op in ("sext", "zext", "trunc", "freeze"):
                    return fold(J.ops[0])
                if J.op == "icmp":
                    x, y = fold(J.ops[0]), fold(J.ops[1])
                    if x is not None and y is not None:
                        return int({"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y, "ult": 0 <= x < y, "ugt": x > y >= 0, "ule": 0 <= x <= y, "uge": x >= y >= 0}[J.d["pred"]])
            return None

        if not cs:
            return False
        for nm, w, c, want in cs:
            if var(c):
                return False
            if uses(c, frozenset()):
                k = fold(c)
                if k is None or not isinstance(want, int) or bool(k) != bool(want):
                    return False
        return True

    # ------------------------------------------------ recursion
    def cycles(self, f):
        """calls which lead back to f, and a text if nothing has changed then"""
        for c in f.calls():
            g = self.m.defined.get(c.callee)
            if g is None:
                continue
            if g is f:
                yield c, self.same(f, c, c.ops, self.factsat(f, c))
            else:
                for d in g.calls(f.name):
                    ops = [c.ops[o[1]] if o[0] == "a" and o[1] < len(c.ops) else o if o[0] in ("c", "null") else None for o in d.ops]
                    fa = self.factsat(f, c)
                    ok = True
                    for n, v in self.factsat(g, d).items():
                        # a condition on what was passed
                        x = tuple(c.ops[o[1]] if isinstance(o, tuple) and len(o) == 2 and o[0] == "a" and o[1] < len(c.ops) else o for o in n)
                        k = compare(x)
                        if k is not None and k != v:
                            ok = False
                    yield c, self.same(f, c, ops, fa, " (through %s)" % g.name) if ok else None

    def factsat(self, f, c):
        return self.L.entryfacts(f, c.blk)

    def same(self, f, c, ops, facts, via=""):
        for k, o in enumerate(ops):
            if k >= f.nargs:
                break
            if o is None or o != ("a", k) and o[0] not in ("c", "null"):
                return None
        # with the constants in place, the same conditions have to hold again
        for n, v in facts.items():
            x = tuple(ops[o[1]] if isinstance(o, tuple) and len(o) == 2 and o[0] == "a" and o[1] < len(ops) else o for o in n)
            if x != n:
                k = compare(x)
                if k is None or k != v:
                    return None
        # what the conditions refer to is not changed before
        before = [i for b in f.blocks if b.id in f.dom[c.blk.id] for i in b.ins if i.op in ("store", "call") and (b is not c.blk or i.idx < c.idx)]
        for n in facts:
            for nm in self.L.parts(f, n):
                if nm is None:
                    nm = None
                for i in before:
                    if i.op == "store" and (nm is None or self.loc(f, i.ops[1]) in (nm, None)):
                        if self.target(f, i.ops[1]):
                            return None
                    elif i.op == "call" and i.callee in self.m.defined and (self.impure(i.callee) or nm in self.changes(f, i)):
                        return None
        return via


def compare(n):
    p, a, b = n
    a, b = (0 if x == ("null",) else x[1] if isinstance(x, tuple) and x and x[0] == "c" else None for x in (a, b))
    if a is None or b is None:
        return None
    return {"eq": a == b, "slt": a < b, "sle": a <= b, "ult": 0 <= a < b, "ule": 0 <= a <= b}.get(p)


def fold(f, o, sub):
    for _ in range(9):
        if o in sub and sub[o] is not None and sub[o] != o:
            o = sub[o]
        else:
            break
    if o[0] == "c":
        return o[1]
    if o[0] == "null":
        return 0
    if o[0] == "i":
        J = f.ins[o[1]]
        if J.op in ("sext", "zext", "trunc", "freeze"):
            return fold(f, J.ops[0], sub)
        if J.op == "icmp":
            a, b = (sub.get(x) or x for x in J.ops[:2])
            if a == b:
                return int(J.d["pred"] in ("eq", "sle", "sge", "ule", "uge"))
            x, y = fold(f, a, sub), fold(f, b, sub)
            if x is not None and y is not None:
                return int({"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y, "ult": 0 <= x < y, "ugt": x > y >= 0, "ule": 0 <= x <= y, "uge": x >= y >= 0}[J.d["pred"]])
    return None


def check(tree, rep):
    m = tree.module()
    P = Progress(m, rep)
    loops = paths = 0
    for f in m.defined.values():
        if f.file in ("lex.yy.c", "parser.c"):
            continue
        for n, (h, body, latches) in enumerate(sorted(f.loops(), key=lambda x: x[0].id)):
            loops += 1
            w = P.check_loop(f, h, body, latches)
            line = next((i.line for i in h.ins if i.line), 0)
            if w:
                rep.violation("loop-%s-%d" % (f.name, n + 1), "%s:%s (%s): a loop does not end: %s" % (f.file, line, f.name, w))
                continue
            p = P.stutter(f, h, body, latches, None)
            if p == "many":
                rep.unresolved("%s:%s (%s): too many paths through the loop" % (f.file, line, f.name))
            elif p:
                ls = [f.bmap[b].term.line for b in p]
                rep.violation("stutter-%s-%d" % (f.name, n + 1), "%s:%s (%s): a loop does not end: on the way through lines %s nothing changes" % (f.file, line, f.name, ls))
            for b in body:
                for I in f.bmap[b].ins:
                    if I.op == "call" and I.callee == "strtok" and I.ops[0][0] != "null" and (I.ops[0][0] != "i" or f.ins[I.ops[0][1]].blk.id not in body):
                        rep.violation("strtok-%s-%d" % (f.name, n + 1), "%s: every iteration starts over with the same text" % I.where())
    # recursion
    recs = 0
    for f in m.defined.values():
        if f.file in ("lex.yy.c", "parser.c"):
            continue
        for c, via in P.cycles(f):
            recs += 1
            if via is not None:
                rep.violation("recursion-%s-%d" % (f.name, recs), "%s: %s calls itself with what it was given itself%s" % (c.where(), f.name, via))
    rep.need(loops > 40, "only %d loops found" % loops)
    rep.cov.update({"loops": loops, "recursive_calls": recs,
                    "explanation": "for each loop: there is a way out; something in it changes what its ways out depend on; counters move towards their bound; no way through the loop leaves everything unchanged which "
                    "decides about that way. For each recursive call: something differs from the call before"})
